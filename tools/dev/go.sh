cd /tmp/w/verif; export VP_REPO=/tmp/w/repo VP_BUILD=/tmp/w/bld
python3 run.py "$@" 2>&1 | python3 /tmp/w/dec.py | grep -av '^    #' | cut -c1-500 | grep -av ^VIOLATION | tail -30
