#!/usr/bin/perl
while (<>) { @A = split; @A >= 2 || die "spk2utt_to_utt2spk.pl: bad line $_"; $s = shift @A; print "$_ $s\n" for @A; }
