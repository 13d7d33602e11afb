import json,sys
s=json.load(sys.stdin)
print({k:s[k] for k in("transitions","traces","points","capped","distinct","wall","note","known")})
for v in s["violations"]: print("VIOL",v["scope"],v["idx"],v["from"],v["sig"],"\n",v["msg"][:1500],"\n",v["desc"][:800])
if len(sys.argv)>1:
    for x in s["scopes"]: print(x["name"],x["done"],"/",x["count"])
