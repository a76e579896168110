#!/usr/bin/env python3
"""Writes the stand-in code tables of harness/grib-shim/def (run by hand).
Every real entry's text is unique: 'T<table>#<code>'.  Shapes differ between
tables (length, reserved ranges, multi-code ranges) so that a mixed-up table or
a shifted index is visible."""
import os, csv, io
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base=os.path.join(here,"harness/grib-shim/def")
def rows(name,h):
    # h: small number which varies the shape
    r=[]; k=0
    n=3+h%5
    for i in range(n):
        r.append((str(k),f"T{name}#{k}")); k+=1
    r.append((f"{k}-{k+1+h%3}","Reserved")); k+=2+h%3
    if h%2:
        r.append((f"{k}-{k+2}",f"T{name}#{k}-{k+2}")); k+=3
    for i in range(2+h%3):
        r.append((str(k),f"T{name}#{k}")); k+=1
    r.append((f"{k}-191","Reserved"))
    r.append(("192-254","Reserved for local use"))
    r.append(("255","Missing"))
    return r
os.makedirs(base+"/CCT",exist_ok=True); os.makedirs(base+"/GRIB2",exist_ok=True)
with open(base+"/CCT/C00.csv","w",newline="") as f:
    w=csv.writer(f); w.writerow(["GRIB version number","BUFR version number","CREX version number","Effective date","Status"])
    for a,b in rows("C00",1): w.writerow([a,"","",b,"Operational"])
with open(base+"/CCT/C11.csv","w",newline="") as f:
    w=csv.writer(f); w.writerow(["CREX2","GRIB2_BUFR4","OriginatingGeneratingCentre_en","Status"])
    for a,b in rows("C11",2): w.writerow(["",a,b,"Operational"])
H=["Title_en","SubTitle_en","CodeFlag","Value","MeaningParameterDescription_en","Note_en","UnitComments_en","Status"]
def out(tbl,parts):
    with open(f"{base}/GRIB2/GRIB2_CodeFlag_{tbl}_CodeTable_en.csv","w",newline="") as f:
        w=csv.writer(f); w.writerow(H)
        for sub,rs in parts:
            for a,b in rs: w.writerow([f"Code table {tbl}",sub,a,"",b,"","","Operational"])
for i,t in enumerate(["0_0","1_1","1_2","1_3","1_4","3_1","4_0","4_3","4_4","4_5","5_0"]):
    out(t,[("",rows(t,i))])
out("4_1",[(f"Product discipline {d} - some products",rows(f"4_1_{d}",i)) for i,d in enumerate([0,1,2,3,4,10,20])])
cats={0:[*range(8),*range(13,21),190,191],1:[0,1,2],2:[0,3,4,5],3:[*range(7)],4:[*range(11)],10:[0,1,2,3,4,191],20:[0,1,2]}
parts=[]; h=0
for d in cats:
    for c in cats[d]:
        parts.append((f"Product discipline {d} - some products, parameter category {c}: something",rows(f"4_2_{d}_{c}",h))); h+=1
out("4_2",parts)
