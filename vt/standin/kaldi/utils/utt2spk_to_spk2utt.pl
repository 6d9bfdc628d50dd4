#!/usr/bin/perl
while (<>) { @A = split; @A == 2 || die "utt2spk_to_spk2utt.pl: bad line $_"; push @S, $A[1] unless exists $U{$A[1]}; push @{$U{$A[1]}}, $A[0]; }
print join(' ', $_, @{$U{$_}}) . "\n" for @S;
