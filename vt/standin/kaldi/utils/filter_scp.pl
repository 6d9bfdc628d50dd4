#!/usr/bin/perl
# filter_scp.pl [--exclude] [-f N] IDS [FILE]: lines of FILE whose (N-th) word is the first of a line of IDS
$ex = 0; $f = 1;
while (@ARGV && $ARGV[0] =~ /^-./) {
    $o = shift @ARGV;
    if ($o eq '--exclude') { $ex = 1; }
    elsif ($o eq '-f') { $f = shift @ARGV; }
    else { die "filter_scp.pl: bad option $o\n"; }
}
die "Usage: filter_scp.pl [--exclude] [-f N] IDS [FILE]\n" if @ARGV < 1 || @ARGV > 2;
$ids = shift @ARGV;
open(F, $ids eq '-' ? '<&STDIN' : "<$ids") || die "filter_scp.pl: no file $ids\n";
while (<F>) { @A = split; @A >= 1 || die "filter_scp.pl: bad line in $ids\n"; $seen{$A[0]} = 1; }
close(F);
while (<>) { @A = split; @A >= $f || die "filter_scp.pl: bad line $_"; print if ($ex xor $seen{$A[$f - 1]}); }
