#!/usr/bin/perl
use List::Util 'shuffle';
srand(int($ENV{SHUFFLE_SEED} || 1));
print shuffle(<>);
