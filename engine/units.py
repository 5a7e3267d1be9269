"""Mechanical extraction: /repo sources -> LLVM IR -> JSON, with the build's own flags, on every run."""
import os
import subprocess
import hashlib
import json

REPO = os.environ.get('VERIF_REPO', '/repo')
OMNI = REPO + '/omniscidb'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LL = '/usr/lib/llvm-16/bin/'
# QueryEngine/CMakeLists.txt precompile_llvm_module: the flags RuntimeFunctions.bc is built with; the optimisation
# pipeline is disabled so that the IR is the front end's translation of the source text.
BASE = [LL + 'clang++', '-std=c++17', '-O3', '-Xclang', '-disable-llvm-passes', '-fPIC', '-gline-tables-only', '-w', '-c', '-emit-llvm',
        '-DBOOST_LOG_DYN_LINK']
RT = BASE + ['-DEXECUTE_INCLUDE', '-I', OMNI]
LIB = BASE + ['-I', OMNI, '-I', REPO, '-I', OMNI + '/ThirdParty', '-I', OMNI + '/ThirdParty/generated',
              '-I', OMNI + '/ThirdParty/rapidjson', '-I', OMNI + '/ThirdParty/sqlite3', '-I', '/usr/lib/llvm-16/include',
              '-I', VERIF + '/units']
SHIM = ['-I', VERIF + '/units/shim']  # stand-ins for TBB loops: the assumed contract on the library
ER = [LIB[0], '-I', VERIF + '/units/shim_er'] + LIB[1:]  # stand-ins for Arrow names and the Executor class
QE = OMNI + '/QueryEngine/'

UNITS = {
    'rt': [(RT, QE + 'RuntimeFunctions.cpp'), (RT, QE + 'DateAdd.cpp'), (RT, QE + 'DateTruncate.cpp'), (RT, QE + 'MurmurHash.cpp')],
    'cd': [(LIB, VERIF + '/units/countdistinct.cpp')],
    'enc': [(LIB + SHIM, VERIF + '/units/encoders.cpp'), (LIB + SHIM, OMNI + '/DataMgr/Encoder.cpp'), (LIB, OMNI + '/IR/Type.cpp'), (LIB, OMNI + '/IR/Datum.cpp'), (LIB + SHIM, OMNI + '/DataMgr/StringNoneEncoder.cpp')],
    'arr': [(LIB, VERIF + '/units/arrays.cpp')],
    'er': [(ER, VERIF + '/units/exprrange.cpp'), (ER, OMNI + '/IR/Expr.cpp'), (LIB, OMNI + '/IR/Type.cpp'), (LIB, OMNI + '/IR/Datum.cpp'), (RT, QE + 'DateTruncate.cpp'), (RT, OMNI + '/Utils/ExtractFromTime.cpp')],
    'hj': [(LIB + SHIM, VERIF + '/units/joinbuild.cpp'), (LIB + SHIM, VERIF + '/units/joinbuild_cpu.cpp'), (RT, QE + 'RuntimeFunctions.cpp'), (RT, QE + 'MurmurHash.cpp')],
}
PASSES = 'function(sroa,simplifycfg,instsimplify,loop-simplify,lcssa)'


def unit(name, srcs=None, extra=()):
    UNITS[name] = srcs


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd)[:400] + '\n' + p.stderr[-3000:])
    return p.stdout


def tool():
    """the IR dumper, built from engine/irdump.cpp"""
    src = VERIF + '/engine/irdump.cpp'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    d = VERIF + '/build'
    os.makedirs(d, exist_ok=True)
    exe = d + '/irdump-' + h
    if not os.path.exists(exe):
        flags = sh([LL + 'llvm-config', '--libs', '--ldflags', '--link-shared', 'core']).split()
        sh(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-16/include', src, '-o', exe + '.tmp%d' % os.getpid()] + flags)
        os.rename(exe + '.tmp%d' % os.getpid(), exe)
    return exe


def build(name, wd):
    """returns (json path, native .so path)"""
    exe = tool()
    jobs, outs = [], []
    for i, (flags, src) in enumerate(UNITS[name]):
        o = '%s/%s.%d.bc' % (wd, name, i)
        jobs.append(subprocess.Popen(flags + ['-o', o, src], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True))
        outs.append(o)
    for j in jobs:
        so, se = j.communicate()
        if j.returncode != 0:
            raise BuildError(' '.join(j.args)[:600] + '\n' + se[-3000:])
    linked = '%s/%s.linked.bc' % (wd, name)
    if len(outs) > 1:
        sh([LL + 'llvm-link'] + outs + ['-o', linked])
    else:
        linked = outs[0]
    opt = '%s/%s.opt.bc' % (wd, name)
    sh([LL + 'opt', '-passes=' + PASSES, linked, '-o', opt])
    js, nat = '%s/%s.json' % (wd, name), '%s/%s.nat.bc' % (wd, name)
    sh([exe, opt, js, nat])
    so = '%s/%s.so' % (wd, name)
    stub = [VERIF + '/units/natstub.cpp'] + NATSRC.get(name, []) if name != 'rt' else []
    sh([LL + 'clang++', '-O1', '-w', '-fPIC', '-shared', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy', nat] + stub + ['-o', so]
       + NATLINK.get(name, []))
    return js, so


NATLINK = {}   # libraries and sources the shared object for concrete runs also needs
NATSRC = {'er': ['-std=c++17', '-DBOOST_LOG_DYN_LINK', '-I', OMNI, '-I', OMNI + '/ThirdParty', '-I', OMNI + '/ThirdParty/rapidjson', '-I', VERIF + '/units', VERIF + '/units/exprrange_nat.cpp', OMNI + '/IR/Context.cpp'],
          'arr': [VERIF + '/units/arrays_dict.cpp']}
