"""Compile /repo's current working tree to LLVM IR (no code is executed)."""
import glob, os, subprocess, sys, tempfile, shutil, concurrent.futures as cf

REPO = os.environ.get('SA_REPO', '/repo')
DIRS = ['lib_common', 'lib_compiler', 'lib_vm', 'lib_builtins', 'driver', 'comp']
SDL = 'driver_sdl'       # analysed where the headers of SDL are installed

FLAGS = ('-std=gnu++17 -O0 -g -fstandalone-debug -fno-discard-value-names -Xclang '
         '-disable-O0-optnone -fno-delete-null-pointer-checks -flto=full '
         '-fwhole-program-vtables -fvisibility=hidden -include cstring '
         '-D__error_t_defined=1 -D_CRT_SECURE_NO_WARNINGS -w').split()


# inline functions of the public interface that no translation unit of the libraries uses
API = '''
#include <cstdio>
#include "%s"
auto api_%d = &%s;
'''
EXTRA = [('lib_common/source.h', 'nano::source_t::get_line'), ('lib_common/source.h', 'nano::source_manager_t::get_line')]


class BuildError(Exception):
    pass


def overlay(out):
    """a copy of the library's find_if that always uses its plain loop (the one for random access is unrolled by four)"""
    d = os.path.join(out, 'overlay')
    for src in sorted(glob.glob('/usr/include/c++/*/bits/stl_algobase.h')):
        text = open(src).read()
        old = '__find_if(__first, __last, __pred,\n\t\t       std::__iterator_category(__first))'
        if text.count(old) == 1 and src.split('/')[4] == '13':
            os.makedirs(d + '/bits', exist_ok=True)
            with open(d + '/bits/stl_algobase.h', 'w') as f:
                f.write(text.replace(old, '__find_if(__first, __last, __pred, std::input_iterator_tag())'))
            return ['-isystem', d]
    return []


def build(out):
    """returns list of .ll paths"""
    os.makedirs(out, exist_ok=True)
    over = overlay(out)
    jobs = []
    for d in DIRS:
        for f in sorted(glob.glob('%s/source/%s/*.cpp' % (REPO, d))):
            name = d + '__' + os.path.basename(f)[:-4]
            jobs.append((f, os.path.join(out, name)))
    if not jobs:
        raise BuildError('no sources under %s/source' % REPO)

    extra = []
    sdl = [(f, os.path.join(out, SDL + '__' + os.path.basename(f)[:-4])) for f in sorted(glob.glob('%s/source/%s/*.cpp' % (REPO, SDL)))]
    for i, (h, sym) in enumerate(EXTRA):
        src = os.path.join(out, 'api%d.cpp' % i)
        with open(src, 'w') as fd:
            fd.write(API % (os.path.join(REPO, 'source', h), i, sym))
        extra.append((src, os.path.join(out, 'api%d' % i)))

    def opt(j):
        try:
            return one(j)
        except BuildError:
            return None
        finally:
            if j in extra:
                os.unlink(j[0])

    def one(j):
        src, dst = j
        p = subprocess.run(['clang++-18'] + FLAGS + over + ['-I%s/source/lib_common' % REPO, '-I/usr/include/SDL2',
                           '-S', '-emit-llvm', src, '-o', dst + '.a.ll'],
                           capture_output=True, text=True)
        if p.returncode:
            raise BuildError('clang failed on %s\n%s' % (src, p.stderr[-3000:]))
        p = subprocess.run(['opt-18', '-passes=sroa', '-S', dst + '.a.ll', '-o', dst + '.ll'],
                           capture_output=True, text=True)
        if p.returncode:
            raise BuildError('opt failed on %s\n%s' % (src, p.stderr[-3000:]))
        os.unlink(dst + '.a.ll')
        return dst + '.ll'
    with cf.ThreadPoolExecutor(8) as ex:
        r = list(ex.map(one, jobs))
        return r + [x for x in ex.map(opt, extra + sdl) if x]
