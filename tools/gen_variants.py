"""Write the small crates that pull the repository's crates in under particular feature sets."""
import os, shutil
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL = '"k256", "p256", "p384", "p521", "x25519"'
V = {
    "surface_min": [("ml-kem", "")],
    "surface_max": [("ml-kem", '"std", "zeroize"')],
    "nostd_mlkem": [("ml-kem", "")],
    "nostd_mlkem_all": [("ml-kem", '"deterministic", "zeroize"')],
    "nostd_xwing": [("x-wing", "")],
    "nostd_dhkem": [("dhkem", "")],
    "nostd_dhkem_all": [("dhkem", ALL + ', "zeroize"')],
}
for name, deps in V.items():
    d = os.path.join(root, "variants", name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    t = '[package]\nname = "kemharness"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n\n[workspace]\n\n[lib]\npath = "src/lib.rs"\n\n[dependencies]\n'
    s = "//! Links the repository's crates under one feature set.\n#![no_std]\n"
    for dep, feats in deps:
        t += f'{dep} = {{ path = "/repo/{dep}", default-features = false, features = [{feats}] }}\n'
        s += f"pub extern crate {dep.replace('-', '_')};\n"
    open(os.path.join(d, "Cargo.toml"), "w").write(t)
    open(os.path.join(d, "src", "lib.rs"), "w").write(s)
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        shutil.copy(os.path.join(root, "harness", "Cargo.lock"), os.path.join(d, "Cargo.lock"))
