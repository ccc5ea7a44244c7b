"""TurbuStat static analyser: an interprocedural value-flow analysis over the
Python syntax trees of /repo/turbustat.  Nothing of /repo is ever imported or
executed."""
