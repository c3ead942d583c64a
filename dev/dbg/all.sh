cd /verif; for a in run_union! run_filter! run_nlf! run_assign! run_table! run_values! run_trivial! run_mu! run_nlj! run_limit! $@; do timeout 100 python3 dev/dbg/run.py $a 2>&1| tail -4 | cut -c1-300; done; python3 check.py C01 | tail -3
