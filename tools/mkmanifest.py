#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('differential runtime monitor: generated defined programs, value transcripts vs gcc/clang, UBSan/ASan as arbiter', 'Every value a generated program computes is compared; trusts agreement of gcc -O0/-O2 and clang on programs UBSan finds silent.'),
 'C02': ('differential runtime monitor: bit patterns of float operations and conversions vs gcc', 'Bit-exact comparison of boundary-heavy operand matrices, folded and at run time.'),
 'C03': ('runtime monitor of storage images: layouts, bit-fields, initialisers vs gcc', 'Byte images of every generated object compared; padding excluded.'),
 'C04': ('runtime interop monitor: caller/callee split over cjit and gcc modules with register and alignment probes', 'Each generated signature runs in all four caller/callee combinations.'),
 'C05': ('differential runtime monitor: token streams and run-time values vs gcc -E', 'Token streams compared after white-space normalisation.'),
 'C06': ('runtime monitor with injected source faults: marker files, exit status, artefacts, diagnostics', 'One known defect per case at a known file and line; monitor sees side effects of any run.'),
 'C07': ('cross-mode transcript monitor plus loader/validator observation of written ELF files', 'The same program through all modes; transcripts must be one.'),
 'C08': ('differential runtime monitor of link outcomes vs gcc+ld', 'Generated module graphs; binding observed by values printed.'),
 'C09': ('runtime probe program reporting argv/env/fds/status vs executable model of the CLI', 'Hostile words, descriptors, signals and exit codes.'),
 'C10': ('runtime monitor of the resolved library (marker values) vs executable search model', 'Scratch library trees with links and linker scripts.'),
 'C11': ('runtime monitor: programs reporting __LINE__/checksums of their own text at hostile sizes', 'Shapes around buffer limits by file and pipe.'),
 'C12': ('fault injection at every system call + concurrent start stress, offline directory content oracle', 'Kill/fail points enumerated over the observed system calls.'),
 'C13': ('ASan/UBSan harness with exact-size buffers, online comparison with zlib', 'Memory safety by red zones; verdict and bytes by zlib.'),
 'C14': ('ASan/UBSan harness, containment snapshot monitor, injected write faults', 'Trees compared with the expected ones; nothing outside may change.'),
 'C15': ('runtime differential monitor vs GNU ar/nm/ld, ASan/UBSan on malformed input', 'Byte comparison of members, index and link outcome.'),
 'C16': ('ASan+UBSan (and valgrind) build of the whole cjit under hostile workloads', 'A report or a death by signal before the program starts is a violation.'),
 'C17': ('ThreadSanitizer and result monitor over threads with states of their own', 'Races seen in the executed interleavings with injected delays.'),
 'C18': ('API history monitor: transcript equality with a fresh process, allocation ledger/LSan', 'Random histories of valid and failing states.'),
 'C19': ('offline history checker (atomicity by value chaining and conservation) over threaded runs', 'Multi-threaded histories plus single-thread value matrix.'),
 'C20': ('runtime monitor: planted memory faults must stop at their line, clean programs must be transparent', 'ASan build of the same program arbitrates.'),
 'C21': ('runtime monitor of fault reports and debug lines against known call chains', 'Expected function/file/line list known by construction.'),
 'C22': ('differential monitor: disassembly of cjit/tcc output vs gas, runtime inline-asm values vs gcc', 'objdump of both encodings.'),
 'C23': ('ASan/UBSan harness vs independent path model, every buffer size', 'Random and hostile paths with small alphabets.'),
 'C24': ('ASan/LSan harness, random histories vs sequence model', 'Model compared after every step.'),
 'C25': ('runtime monitor: option permutations vs executable model of documented options', 'Probe programs print what took effect.'),
 'C26': ('runtime monitor: .tcov report vs the program own execution counters', 'Counts known by construction.'),
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    m = V + '/lib/vf/checks/%s.py' % i.lower()
    if i in T and os.path.exists(m):
        lvl = 'fault_enumeration' if i == 'C12' else 'exploration'
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T[i][0], 'level': lvl, 'level_note': T[i][1]})
    elif i == 'C27':
        na.append({'property': i, 'reason': 'No emulator or loader for any foreign target is installed, so programs generated for them cannot be executed and a runtime monitor has nothing to observe.'})
    else:
        na.append({'property': i, 'reason': 'tcc increments its counters at block heads, so a per-line execution count is not something its reports promise; the per-line monitor built for it disagrees with them on correct code and was removed (see DESIGN.md).'})
hook = subprocess.run(['git', '-c', 'safe.directory=*', '-C', '/repo', 'log', '--format=%H', '--grep=^verif hook'], capture_output=True, text=True).stdout.split()
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(0)"',
           'hooks': {'guard': 'CJIT_VERIF', 'enable': 'lib/vf/build.py passes -DCJIT_VERIF in the asan builds of /repo it makes in its scratch directory', 'source_commits': hook},
           'checks': checks, 'not_applicable': na,
           'notes': 'Every check rebuilds /repo in a scratch directory below TMPDIR and removes it.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
