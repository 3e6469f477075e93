"""Interpreters that claim to be other ones (another version, platform, libc, site directory)."""
import json
import os
import struct
import sys

# an interpreter that claims to be another one: it patches what the introspection asks and then runs the given script
WRAP = r'''
import json, sys
cfg = json.load(open(CFG))
import sysconfig, platform, os, importlib.machinery, types, site
real_vars = dict(sysconfig.get_config_vars())
paths = {s: sysconfig.get_paths(s) for s in sysconfig.get_scheme_names()}
main_paths, names = {**sysconfig.get_paths(), **cfg.get("paths", {})}, sysconfig.get_scheme_names()
sysconfig.get_paths = lambda scheme=None, *a, **k: main_paths if scheme is None else paths[scheme]
sysconfig.get_scheme_names = lambda: names
sysconfig.is_python_build = lambda *a: False
packages = [cfg["paths"]["purelib"]] if "paths" in cfg else site.getsitepackages()
site.getsitepackages = lambda *a: packages
uname = (platform.release(), platform.version())
platform.release, platform.version = (lambda: uname[0]), (lambda: uname[1])
if "implementation" in cfg:
    sys.implementation = types.SimpleNamespace(name=cfg["implementation"], version=tuple(cfg["version_info"]), cache_tag=None, hexversion=0)
if "version_info" in cfg:
    v = cfg["version_info"]
    sys.version_info = tuple(v)
    platform.python_version = lambda: ".".join(map(str, v[:3]))
    platform.python_version_tuple = lambda: tuple(map(str, v[:3]))
if "maxsize" in cfg:
    sys.maxsize = cfg["maxsize"]
if "sys_platform" in cfg:
    sys.platform = cfg["sys_platform"]
if "executable" in cfg:
    sys.executable = cfg["executable"]
if "system" in cfg:
    platform.system = lambda: cfg["system"]
if "machine" in cfg:
    platform.machine = lambda: cfg["machine"]
if "mac_ver" in cfg:
    platform.mac_ver = lambda: tuple(cfg["mac_ver"])
if "python_implementation" in cfg:
    platform.python_implementation = lambda: cfg["python_implementation"]
if "platform" in cfg:
    sysconfig.get_platform = lambda: cfg["platform"]
merged = {**{k: v for k, v in real_vars.items() if k not in ("SOABI", "EXT_SUFFIX", "Py_DEBUG", "WITH_PYMALLOC", "Py_UNICODE_SIZE")}, **cfg.get("vars", {})}
sysconfig.get_config_vars = lambda *a: merged if not a else [merged.get(n) for n in a]
sysconfig.get_config_var = merged.get
if "confstr" in cfg:
    conf = cfg["confstr"]
    os.confstr_names = {k: i for i, k in enumerate(conf)}
    os.confstr = lambda n: conf.get(n, "")
if "suffixes" in cfg:
    importlib.machinery.EXTENSION_SUFFIXES = cfg["suffixes"]
script = sys.argv[1]
sys.argv = sys.argv[1:]
exec(compile(open(script).read(), script, "exec"), {"__name__": "__main__", "__file__": script})
'''

ELF_MACHINE = {"x86_64": 62, "i686": 3, "aarch64": 183, "armv7l": 40, "ppc64le": 21, "s390x": 22}
LEGACY = {(2, 17): "manylinux2014", (2, 12): "manylinux2010", (2, 5): "manylinux1"}


def elf(path, arch, interp=None):
    """an ELF header (and program header naming the loader) for the architecture, as the interpreter's binary"""
    bits32 = arch in ("i686", "armv7l")
    little = arch != "s390x"
    e = "<" if little else ">"
    flags = 0x05000400 if arch == "armv7l" else 0
    ehsize, phsize = (52, 32) if bits32 else (64, 56)
    head = b"\x7fELF" + bytes([1 if bits32 else 2, 1 if little else 2, 1, 0, 0]) + b"\0" * 7
    n = 1 if interp else 0
    head += struct.pack(e + "2HI3" + ("L" if bits32 else "Q") + "I6H", 3, ELF_MACHINE[arch], 1, 0, ehsize, 0, flags, ehsize, phsize, n, 0, 0, 0)
    data = head
    if interp:
        s = os.fsencode(interp) + b"\0"
        off = ehsize + phsize
        if bits32:
            data += struct.pack(e + "8I", 3, off, 0x08048000 + off, 0x08048000 + off, len(s), len(s), 4, 1)
        else:
            data += struct.pack(e + "2I6Q", 3, 4, off, 0x400000 + off, 0x400000 + off, len(s), len(s), 1)
        data += s
    path.write_bytes(data + b"\0" * 64)


def stage_interpreter(folder, config, arch=None, musl=None):
    """-> an interpreter that answers the introspection's questions as the configuration says.
    `arch`: it is a linux one, whose binary is made for this architecture (by musl, if its version is given)"""
    folder.mkdir(parents=True)
    cfg = dict(config)
    if arch:
        loader = None
        if musl:
            loader = folder / "ld-musl.so.1"
            loader.write_text(f"#!/bin/sh\necho 'musl libc ({arch})' >&2\necho 'Version {musl[0]}.{musl[1]}.3' >&2\nexit 1\n")
            loader.chmod(0o755)
        binary = folder / "python-binary"
        elf(binary, arch, str(loader) if loader else None)
        cfg["executable"] = str(binary)
    (folder / "cfg.json").write_text(json.dumps(cfg))
    (folder / "wrap.py").write_text(f"CFG = {str(folder / 'cfg.json')!r}\n" + WRAP)
    fake = folder / "python3"
    fake.write_text(f"#!/bin/sh\nexec {sys.executable} {folder / 'wrap.py'} \"$@\"\n")
    fake.chmod(0o755)
    (folder / "python").symlink_to("python3")
    return fake
