"""Writes the backend instantiation crates harness/b/* (one per group of types, so that they compile in parallel)."""
import os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
deps = '''iris-mpc = { path = "/repo/iris-mpc" }
plain-reference = { path = "/repo/plain-reference" }
'''
A = ("aby3_like", "GAby3", "Aby3<SimNet>, Be::Aby3, ")
M = ("aby3_like", "GMal", "MalAby3<SimNet>, Be::Mal, ")
S = ("spdz", "GSpdz", "")
W = ("swift", "GSwift", "")
sp = [("aby3a", A, ["u8", "u16", "u32"]), ("aby3b", A, ["u64", "u128", "i16"]),
      ("mala", M, ["u8", "u64"]), ("malb", M, ["u16", "i16"]),
      ("spdza", S, ["u8", "u16"]), ("spdzb", S, ["u32", "u64"]), ("spdzc", S, ["i16"])]
sp += [("swift" + t, W, [t]) for t in ["u8", "u16", "u32", "u64", "u128", "i16"]]
import shutil
shutil.rmtree("b")
for n, (m, g, pre), tys in sp:
    os.makedirs(f'b/{n}/src')
    open(f'b/{n}/Cargo.toml', 'w').write(f'''[package]
name = "b_{n}"
version = "0.1.0"
edition = "2021"
publish = false

[dependencies]
{deps}vcore = {{ path = "../../core" }}
rand = "0.8"
rand_chacha = "0.3"
''')
    o = "use vcore::pre::*;\n\n"
    t = []
    for ty in tys:
        k = int(ty[1:])
        u = "u128" if k >= 64 else "u64"
        N = g + ty.upper()
        if m == "spdz":
            o += f"vcore::spdz!({N}, {ty}, {u}, {k}, {u[1:]});\n"
        else:
            o += f"vcore::{m}!({N}, {pre}{ty}, {u}, {k});\n"
        t.append(f"{ty.upper()} => {N}")
    o += "\nvcore::table!(" + ", ".join(t) + ");\n"
    open(f'b/{n}/src/lib.rs', 'w').write(o)
c = open('Cargo.toml').read()
c = re.sub(r'b_\w+ = .*\n', '', c)
c = c.replace('vcore = { path = "core" }\n', 'vcore = { path = "core" }\n' + "".join(f'b_{n} = {{ path = "b/{n}" }}\n' for n, _, _ in sp))
open('Cargo.toml', 'w').write(c)
