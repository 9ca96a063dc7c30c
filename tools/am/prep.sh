. /tmp/env.sh
rm -rf /tmp/am/verif /tmp/am/repo /tmp/am/w; mkdir /tmp/am/verif; cp -a /verif/check.py /verif/sim /verif/known-findings.txt /tmp/am/verif/; cp -a /repo /tmp/am/repo
cd /tmp/am; ./gen bip32/bip32.go bip32/path.go bip32/reg_ver_bytes.go bip32/utils.go bip39/bip39.go bip44/coin.go bip44/coins.go bip44/script.go util/key_path.go util/util.go > all.json
python3 -c "
import sys;sys.path.insert(0,'/tmp/plant')
import plant as P,json
json.dump([x for x in P.tests('/tmp/am/repo')],open('/tmp/am/stable.json','w'))"
