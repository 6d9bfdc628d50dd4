export PATH=$PWD/utils:$PWD/tools:$PATH
