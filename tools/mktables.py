#!/usr/bin/env python3
"""Generates harness/src/tables.rs from tables that do not come from the crate textcode: Python's codecs, and glibc's
iconv for ISO-6937. Run by hand; the output is committed."""
import subprocess, os
out=["//! Generated by tools/mktables.py from Python's codecs and glibc's iconv. 0 means that the code is not assigned.",""]
names=[1,2,3,4,5,6,7,8,9,10,11,13,14,15,16]
out.append("/// Upper halves (0xA0 to 0xFF) of the parts of ISO-8859.")
out.append("pub static ISO8859: [(u8, [u32; 96]); 15] = [")
for n in names:
    row=[]
    for b in range(0xA0,0x100):
        try: c=ord(bytes([b]).decode(f"iso8859_{n}"))
        except UnicodeDecodeError: c=0
        row.append(c)
    out.append(f"    ({n}, [{', '.join(hex(c) for c in row)}]),")
out.append("];")
out.append("/// GB2312: rows 0xA1 to 0xF7, columns 0xA1 to 0xFE.")
out.append("pub static GB2312: [[u16; 94]; 87] = [")
for hi in range(0xA1,0xF8):
    row=[]
    for lo in range(0xA1,0xFF):
        try: c=ord(bytes([hi,lo]).decode("gb2312"))
        except UnicodeDecodeError: c=0
        row.append(c)
    out.append(f"    [{', '.join(hex(c) for c in row)}],")
out.append("];")
def iconv(b):
    p=subprocess.run(["iconv","-f","ISO_6937","-t","UTF-8"],input=b,capture_output=True)
    if p.returncode: return None
    s=p.stdout.decode()
    return ord(s) if len(s)==1 else None
rows=[]
for b in range(0xA0,0x100):
    if 0xC0<=b<=0xCF: continue
    c=iconv(bytes([b]))
    if c: rows.append(((b,),c))
for b in range(0xC1,0xD0):
    for l in range(0x41,0x7B):
        c=iconv(bytes([b,l]))
        if c: rows.append(((b,l),c))
# codes on which published tables differ: horizontal bar or em dash; capital eth or D with stroke; where g carries its
# cedilla
rows=[r for r in rows if r[0] not in ((0xD0,),(0xE2,),(0xCB,0x67))]
out.append("/// ISO-6937: (first byte, second byte or 0, character).")
out.append(f"pub static ISO6937: [(u8, u8, u32); {len(rows)}] = [")
for k,c in rows:
    out.append(f"    ({hex(k[0])}, {hex(k[1]) if len(k)>1 else 0}, {hex(c)}),")
out.append("];")
open(os.path.join(os.path.dirname(__file__),"../harness/src/tables.rs"),"w").write("\n".join(out)+"\n")
