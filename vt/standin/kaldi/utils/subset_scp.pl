#!/usr/bin/perl
# subset_scp.pl [--first|--last] N FILE: the first, the last, or evenly spread N lines
$w = '';
if (@ARGV && $ARGV[0] =~ /^--(first|last)$/) { $w = $1; shift @ARGV; }
@ARGV == 2 && $ARGV[0] =~ /^\d+$/ || die "Usage: subset_scp.pl [--first|--last] N FILE\n";
($n, $f) = @ARGV;
open(F, "<$f") || die "subset_scp.pl: no file $f\n";
@L = <F>;
$n <= @L || die "subset_scp.pl: fewer lines than $n\n";
if ($w eq 'first') { print @L[0 .. $n - 1]; }
elsif ($w eq 'last') { print @L[@L - $n .. $#L]; }
else { print $L[int($_ * @L / $n)] for 0 .. $n - 1; }
