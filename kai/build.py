"""Builds the MIR driver and dumps the type-checked program of /repo's current tree."""
import os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KOFFT_REPO", "/repo")


class BuildError(Exception):
    pass


def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    if r.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.stdout


class Work:
    """scratch directory holding the driver, target directories and dumps; removed at the end"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="kofft-static-")
        self.drv = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def driver(self):
        if self.drv is None:
            out = os.path.join(self.dir, "mirdump")
            sh(["rustc", "+nightly", "--edition", "2021", "-O", os.path.join(VERIF, "driver", "mirdump.rs"), "-o", out])
            self.drv = out
            self.lib = sh(["rustc", "+nightly", "--print", "sysroot"]).strip() + "/lib"
        return self.drv

    def dump(self, name, args, rustflags=None, pkg_out="kofft.lib.json", cwd=None):
        """cargo check with the driver as workspace wrapper; returns the path of the dump"""
        drv = self.driver()
        out = os.path.join(self.dir, name)
        os.makedirs(out, exist_ok=True)
        env = dict(os.environ)
        env.update({"LD_LIBRARY_PATH": self.lib, "RUSTC_WORKSPACE_WRAPPER": drv, "MIRDUMP_OUT": out,
                    "CARGO_TARGET_DIR": os.path.join(self.dir, "target-" + name), "CARGO_NET_OFFLINE": "true"})
        env.pop("RUSTFLAGS", None)
        env.pop("CARGO_ENCODED_RUSTFLAGS", None)
        if rustflags:
            env["RUSTFLAGS"] = rustflags
        sh(["cargo", "+nightly", "check", "--offline"] + args, cwd=cwd or REPO, env=env)
        shutil.rmtree(env["CARGO_TARGET_DIR"], ignore_errors=True)
        p = os.path.join(out, pkg_out) if pkg_out else out
        if pkg_out and not os.path.exists(p):
            raise BuildError("no dump " + p + " in " + str(os.listdir(out)))
        return p

    def kofft(self, cfg="all"):
        args, fl = CONFIGS[cfg]
        return self.dump("kofft-" + cfg, ["-p", "kofft", "--lib"] + args, fl)


NODEBUG = "-C debug-assertions=off -C overflow-checks=on"
CONFIGS = {
    "rel": (["--all-features"], NODEBUG),
    "nostd-rel": (["--no-default-features"], NODEBUG),
    "all": (["--all-features"], None),
    "sse": (["--features", "sse,std,internal-tests"], None),
    "default": ([], None),
    "nostd": (["--no-default-features"], None),
    "avx": (["--all-features"], "-C target-feature=+avx2,+fma"),
}
