#!/usr/bin/perl
# run.pl [JOB=a:b] LOG COMMAND...: runs the command for each job, all at once
my ($v, $a, $b) = ('', 1, 1);
while (@ARGV && $ARGV[0] =~ /^-/) { shift @ARGV; shift @ARGV; }
if ($ARGV[0] =~ /^(\w+)=(\d+):(\d+)$/) { ($v, $a, $b) = ($1, $2, $3); shift @ARGV; }
elsif ($ARGV[0] =~ /^(\w+)=(\d+)$/) { ($v, $a, $b) = ($1, $2, $2); shift @ARGV; }
my $log = shift @ARGV;
my @p;
for my $j ($a .. $b) {
    my ($l, @c) = ($log, @ARGV);
    if ($v ne '') { s/$v/$j/g for $l, @c; }
    my $p = fork();
    if (!$p) { open(STDOUT, ">$l") || die "no log $l"; open(STDERR, '>&STDOUT'); exec('bash', '-c', "@c"); die; }
    push @p, $p;
}
my $bad = 0;
for (@p) { waitpid($_, 0); $bad++ if $?; }
exit($bad ? 1 : 0);
