# source me in /repo after editing it: mk ID PROP NEEDS WHAT ; then cat demo.cpp | demo ID
mk(){ id=$1; prop=$2; mkdir -p /verif/seeded/$id; git diff > /verif/seeded/$id/patch.diff; git checkout -q -- .; python3 - "$id" "$prop" "$3" "$4" <<'E'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
E
}
demo(){ cp /verif/seeded/s12-lapy2/demo.sh /verif/seeded/$1/demo.sh; cat > /verif/seeded/$1/demo.cpp; }
