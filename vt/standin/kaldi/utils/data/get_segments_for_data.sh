#!/bin/bash
# one segment per recording, of its whole length
awk '{print $1, $1, 0, $2}' $1/utt2dur
