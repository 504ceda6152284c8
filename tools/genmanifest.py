"""Writes MANIFEST.json from the table below; properties without a check are listed as not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'M01': ('differential monitoring against a DP matcher under ASan/UBSan', 'exhaustive to a small length, random beyond; trusts the reference matcher'),
 'P01': ('output decoder as oracle under ASan/UBSan', 'all bytes, random buffers'),
 'P02': ('enumeration against strerrorname_np under ASan/UBSan', 'all small values and random large ones; trusts glibc'),
 'S01': ('model-based monitoring of every insertion under ASan/UBSan', 'random histories; trusts a brute-force precedence model'),
 'L02': ('reference count model and destruction counting under ASan; races to the last reference under ThreadSanitizer (which is told about fences)', 'random histories; observed schedules'),
 'L01': ('ownership model plus destruction counting under ASan/LSan/UBSan', 'random histories of five pointers'),
 'D01': ('differential monitoring against the platform demangler under ASan/UBSan', 'grammar-generated names plus a corpus of real symbols; trusts __cxa_demangle'),
 'D02': ('coverage-guided fuzzing under ASan/LSan/UBSan with totality assertions', 'libFuzzer plus truncation and mutation of real symbols'),
 'F01': ('model-based runtime monitoring of the output stream under ASan/UBSan and libstdc++ debug mode', 'random histories; trusts the reference model of a line'),
 'F02': ('model-based runtime monitoring of continued and nested statements under ASan/UBSan', 'random well-formed histories; trusts the reference model'),
 'F03': ('model-based runtime monitoring of the string members under ASan/UBSan', 'random histories; std::string is the model'),
 'C01': ('model-based runtime monitoring of evaluation and output under ASan/UBSan', 'random histories; counters are the model'),
 'T04': ('model-based runtime monitoring of threads taking turns, with a lock-checking stream, under ASan/UBSan', 'random sequential interleavings at statement and argument granularity; trusts the reference model'),
 'I01': ('generated programs with known types, first used by racing threads, under ASan/UBSan and ThreadSanitizer', 'random types; trusts the compiler, typeid and __cxa_demangle'),
 'C02': ('model-based runtime monitoring of the channel registry under ASan/UBSan and ThreadSanitizer', 'random registration histories over static, modular and threaded creation; trusts a list as model'),
 'R01': ('model-based runtime monitoring of generated rcfiles in child processes under ASan/UBSan', 'random valid and invalid rcfiles; trusts an independent model of the documented grammar'),
 'T01': ('offline replay of recorded lock sections against per-thread models, under ThreadSanitizer and ASan, with injected delays', 'random concurrent histories and schedules; trusts the reference model'),
 'T02': ('per-thread models compared after every operation of concurrent threads, under ThreadSanitizer and ASan', 'random concurrent histories and schedules'),
 'T03': ('concurrent thread creation and exit under ThreadSanitizer, ASan and LeakSanitizer, with replay of the output', 'random thread trees; detached and joined threads'),
 'E01': ('monitored child processes: fatal statements at random points and in concurrent threads, output and exit status against the reference model, under ASan/UBSan and ThreadSanitizer', 'random histories and schedules; trusts the reference model'),
 'E02': ('monitored child processes: misuse injected at random points, message, exit status, locks and sanitizer reports judged, under ASan/UBSan', 'thirteen kinds of misuse at random points'),
 'I02': ('monitored child processes: init() with generated rcfiles and racing init_thread() calls compared with a model, under ThreadSanitizer and ASan/UBSan', 'random rcfiles of on/off/default lines, channels, names, modes and thread trees'),
 'O01': ('concurrent replacement and destruction of streams and locks, monitored by recording streams and mutexes, under ThreadSanitizer and ASan', 'random concurrent histories; every replaced stream is checked to be unused'),
 'N01': ('generated programs run with and without CWDEBUG, by g++ and clang++; effects of the macro arguments and the output against a model', 'random programs; trusts the generator of the reference results'),
 'N02': ('generated programs whose static constructors use libcwd in every link order, output against a model, under ASan with init-order checking', 'random programs and six link orders each'),
 'A01': ('differential monitoring of lookups in generated programs against the generator, a separate reader of the debug information and the symbol tables, under ASan/UBSan', 'random programs, compilers and kinds of debug information; trusts the generator and libdw'),
 'A02': ('model-based runtime monitoring of histories of Location objects under ASan/UBSan/LSan', 'random histories of six objects; trusts the model of the documented ownership'),
 'A03': ('concurrent lookups, dlopen and dlclose under ThreadSanitizer (calls of libdw are modelled as writes) and ASan, with a deadlock watchdog; every answer compared with a separate reader', 'random schedules of up to eight threads; a library is only looked up by threads that hold it open'),
 'X01': ('model-based runtime monitoring of histories of dlopen and dlclose over generated libraries, under ASan/UBSan, against the dynamic loader\'s own list and a separate reader of the debug information', 'random histories over eight to thirteen libraries'),
 'N04': ('generated projects of libraries and programs with channel namespaces of their own; their output against a model of the name lookup', 'random projects of at most four libraries; two compilers'),
 'N03': ('the library built in several configurations; programs compiled with every combination of macros, start-up diagnosis against a model', 'four configurations of the library, random macro combinations'),
 'G01': ('monitored child processes with stand-ins for gdb and the terminal, that attach, wait or fail, judged by a model, under ASan/UBSan', 'random commands, lengths, delays and states; gdb itself is not run'),
 'G02': ('monitored child processes: output of every operation against the list of the dynamic loader and the program headers, under ASan/UBSan', 'random environments, limits and histories; trusts dl_iterate_phdr'),
}
NA = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in T:
            checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=T[i][0], level='exploration', level_note=T[i][1]))
        else:
            na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
             notes='Every check builds libcwd from /repo with the stand-in for the absent threadsafe submodule in shim/.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'not applicable')
main()
