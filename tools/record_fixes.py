import subprocess,re
M={}
for line in """018ca96 N02|ca3e388 N02|cf9665f N02|baf9d34 N04|f443f82 N04|9eec55e N04|d16601b N04|0b2324d N04|89c3748 N04|d87f427 N07|2bf8b7c C01|e0f2f05 C02|88333fa C02|a3cf250 C02|fc3b48d C04|837f40f C03|1327a14 C01|0e2dcd2 P01|b21aa1a P01|fd38b54 P05|f042efb P05|4304a99 S02|0ef296d S03|a4b0f8e S03|818a50b S04|2d4f590 T01|3818233 T01|f7f8ce3 T01|4c276c8 T01|3ad6acb T03|30516c1 T03|29e83ba T04|3295952 T04|42e1ca9 T04|68f1c0e T04|f64e285 T05|a5b0f37 T05|1519095 T06|e9aaa7b T06|07d334b T06|8b8807f T06|f7161c3 T06|f82e5d1 T07|763be1f T07|2fb0580 T07|6df7588 T07|86a7e4d T07|975b57d T08|4601cf7 T08|706c7da T08|3e2ffc4 T08|9495a98 T08|ec4e40f T08|ac1d68d T08|5968fd0 H01|6291b52 H01|70702cc H03|7457fe4 H03|523a523 H04|add3a65 H04|0879f60 H04|eb016d5 H05|93a057c H05|84b589c H05|0b92e71 H05|d42eda2 H06|1b212e1 H06|5f44743 H06|1499ba1 K01|18b75f0 K01|56871e6 K01|15c65a0 K01|2ad7005 K01|3ae6200 K01|2661d7c K01|628c70d K02""".split("|"):
  c,p=line.split(); M[c]=p
T={}
for l in open('/verif/tools/fixed_texts.txt'):
  m=re.match(r"fixed: property=(\S+) (\S+) (.*)",l.strip())
  if m: T[m[2]]=(m[1].split(",")[0],m[3])
out=[]
for e in subprocess.run(["git","-C","/repo","log","--reverse","--format=%h%x01%s%x01%b%x02","913c04a.."],capture_output=True,text=True).stdout.split("\x02"):
  if not e.strip(): continue
  h,s,b=e.strip().split("\x01")
  if not s.startswith("fix:"): print("not a fix:",h,s); continue
  b=" ".join(b.split())
  if h in T: p,w=T[h]
  elif h in M: p,w=M[h],b or "before: "+s[5:]
  else: print("??",h,s); continue
  out.append(f"fixed: property={p} {h} {w}")
keep=[l for l in open('/verif/known_findings.jsonl') if l.startswith("{")]
open('/verif/known_findings.jsonl','w').write("".join(keep)+"\n".join(out)+"\n")
print(len(out))
