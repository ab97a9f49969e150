"""A directory source of the crates which the pinned toolchain has in its cache, for toolchains whose own
cache lacks them. Only links, made under target/."""
import glob, json, os, re, shutil

def make(lock, out):
    cache = [d for d in glob.glob("/root/.cargo/registry/src/*")]
    wanted = []
    for block in open(lock).read().split("[[package]]")[1:]:
        get = lambda k: (re.search(rf'^{k} = "(.*)"', block, re.M) or [None, None])[1]
        if get("source") and get("source").startswith("registry+"):
            wanted.append((get("name"), get("version"), get("checksum")))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    for name, version, checksum in wanted:
        for c in cache:
            src = f"{c}/{name}-{version}"
            if os.path.isdir(src):
                break
        else:
            continue  # one for another platform; cargo complains if it is needed
        dst = f"{out}/{name}-{version}"
        os.makedirs(dst)
        for entry in os.listdir(src):
            os.symlink(f"{src}/{entry}", f"{dst}/{entry}")
        with open(f"{dst}/.cargo-checksum.json", "w") as f:
            json.dump({"files": {}, "package": checksum}, f)
    return ["--config", 'source.crates-io.replace-with="cached"', "--config", f'source.cached.directory="{out}"']
