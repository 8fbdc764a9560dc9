"""What each check runs: (flavour, workload, number of cases, options) per tier."""

# name -> compiler, flags, source of flags is deliberately explicit: these are the build configurations under test
G = '-std=c++17 -w -g'
FLAVOURS = {
    # the library as it is normally built (asserts on), plus bounds checked std containers
    'plain':    dict(cxx='g++', flags=f'{G} -O2 -D_GLIBCXX_ASSERTIONS'),
    # same code, checked iterators and invalidation tracking
    'debug':    dict(cxx='g++', flags=f'{G} -O1 -D_GLIBCXX_DEBUG -D_GLIBCXX_DEBUG_PEDANTIC'),
    'asan':     dict(cxx='g++', flags=f'{G} -O1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS', san=True),
    'asanv':    dict(cxx='clang++', flags=f'{G} -O1 -fno-omit-frame-pointer -fsanitize=address,undefined,float-divide-by-zero -fno-sanitize-recover=all -fsanitize-address-use-after-scope -fsanitize-address-use-after-return=always -DUTREEXO_VERIFY', san=True),
    'tsan':     dict(cxx='g++', flags=f'{G} -O1 -fno-omit-frame-pointer -fsanitize=thread', san=True, tsan=True),
    'tsanc':    dict(cxx='clang++', flags=f'{G} -O1 -fno-omit-frame-pointer -fsanitize=thread', san=True, tsan=True),
    'valgrind': dict(cxx='g++', flags=f'{G} -O1 -fno-builtin -DNO_ALLOC_COUNT', valgrind=True),
    # configurations compared by C16; the library chooses byte order functions and builtins by HAVE_... (as configured where it is embedded)
    # (the monitors themselves are always built by the same compiler, so that a case is the same operations everywhere)
    'o2':       dict(cxx='g++', flags=f'{G} -O2'),
    'o0verify': dict(cxx='g++', flags=f'{G} -O0 -DUTREEXO_VERIFY', harness='-DUTREEXO_VERIFY'),
    'o3ndebug': dict(cxx='g++', flags=f'{G} -O3 -DNDEBUG -march=native', harness='-DNDEBUG'),
    'clang':    dict(cxx='clang++', flags=f'{G} -O2 -DHAVE_DECL___BUILTIN_CLZLL=1', harness=''),
    'clangv':   dict(cxx='clang++', flags=f'{G} -O3 -DUTREEXO_VERIFY -DHAVE_CONFIG_H -I@HARNESS@/embedded', harness='-DUTREEXO_VERIFY'),
    'os':       dict(cxx='g++', flags=f'{G} -Os -fno-strict-aliasing -funsigned-char -DHAVE_DECL___BUILTIN_CLZL=1 -DHAVE_BYTESWAP_H=1 -DHAVE_DECL_BSWAP_16=1 -DHAVE_DECL_BSWAP_32=1 -DHAVE_DECL_BSWAP_64=1', harness=''),
    # a counter at every edge of the control flow (C18)
    'cost':     dict(cxx='clang++', flags=f'{G} -O1 -fsanitize-coverage=trace-pc-guard'),
    'uninit':   dict(cxx='clang++', flags=f'{G} -O1 -ftrivial-auto-var-init=pattern', harness=''),
}

# which harness source holds a workload
SOURCE = {w: 'props_hist.cpp' for w in ('C01', 'C02', 'C06', 'C11', 'C17')}
SOURCE.update({w: 'props_proof.cpp' for w in ('C03', 'C04', 'C05', 'C07', 'C08', 'C16')})
SOURCE.update({'C09': 'props_io.cpp', 'C10': 'props_io.cpp', 'C13': 'props_conc.cpp', 'C14': 'props_pos.cpp',
               'C15': 'props_sha.cpp', 'C18': 'props_cost.cpp', 'H1': 'props_hostile.cpp', 'H2': 'props_hostile.cpp'})


def P(flavour, workload, quick, thorough, **o):
    return dict(flavour=flavour, workload=workload, count=dict(quick=quick, thorough=thorough), **o)


PLANS = {
    'C01': [P('plain', 'C01', 40000, 800000)],
    'C02': [P('plain', 'C02', 30000, 600000)],
    'C03': [P('plain', 'C03', 24000, 500000)],
    'C04': [P('plain', 'C04', 30000, 600000)],
    'C05': [P('plain', 'C05', 24000, 500000)],
    'C06': [P('plain', 'C06', 60000, 1200000)],
    'C07': [P('plain', 'C07', 30000, 600000)],
    'C08': [P('plain', 'C08', 30000, 600000)],
    'C09': [P('plain', 'C09', 8000, 200000)],
    'C10': [P('plain', 'C10', 40000, 1000000)],
    'C11': [P('plain', 'C11', 60000, 1200000)],
    'C12': [P('asan', w, n, 30 * n, memory_only=True, heavy=1 if w in ('C01', 'C02', 'C06', 'C09') else 0) for w, n in
            (('H1', 3600), ('H2', 2400), ('C01', 360), ('C02', 900), ('C03', 600), ('C04', 600), ('C05', 600), ('C06', 900),
             ('C07', 900), ('C08', 600), ('C09', 180), ('C10', 1500), ('C11', 1200), ('C14', 90), ('C17', 1200))]
           + [P('asanv', w, n, 30 * n, memory_only=True, heavy=0) for w, n in
              (('H1', 1200), ('H2', 900), ('C03', 240), ('C05', 300), ('C06', 480), ('C07', 480), ('C10', 480), ('C11', 480))]
           + [P('plain', w, n, 20 * n, memory_only=True, leak=True, heavy=1) for w, n in
              (('H1', 2400), ('H2', 1800), ('C02', 1200), ('C05', 900), ('C06', 1800), ('C07', 1200), ('C08', 900), ('C10', 900), ('C11', 1200), ('C17', 1200))]
           + [P('debug', w, n, 20 * n, memory_only=True, heavy=0) for w, n in
              (('H1', 900), ('C02', 300), ('C05', 240), ('C06', 300), ('C07', 300), ('C11', 300))]
           + [P('valgrind', w, n, 20 * n, memory_only=True, weight=30, heavy=0) for w, n in
              (('H1', 38), ('H2', 24), ('C06', 28), ('C07', 28), ('C10', 24), ('C17', 28))],
    'C13': [P('tsan', 'C13', 1600, 30000), P('plain', 'C13', 8000, 150000)],
    'C14': [P('plain', 'C14', 24000, 500000)] + [P(f, 'C14', 3000, 60000) for f in ('os', 'clang')],
    'C15': [P('plain', 'C15', 1500, 20000)],
    'C16': [P(f, 'C16', 6000, 150000, digests=True, memory_only=True) for f in ('o2', 'o0verify', 'o3ndebug', 'clang', 'clangv', 'os', 'uninit')]
           + [P('o2', 'C16', 3000, 60000, digests=True, memory_only=True, env={'MALLOC_PERTURB_': '85'}),
              P('clang', 'C16', 3000, 60000, digests=True, memory_only=True, env={'MALLOC_PERTURB_': '170'})],
    'C17': [P('plain', 'C17', 60000, 1500000)],
    'C18': [P('cost', 'C18', 4000, 120000)],
}
