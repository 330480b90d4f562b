# usage: v.sh kind qual width
cd /verif/selftest; V=1 timeout 600 python3 run.py $1 $2 2>&1 | cut -c1-${3:-1200}
