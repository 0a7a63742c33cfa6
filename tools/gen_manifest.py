#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRACE = 'TLA+ specification, TLC trace validation of the real %s'
LIB = 'Every reply of the library in every trace is decided by TLC against spec/Api.tla; the traces are generated from the specification and seeded data, so within the generated inputs and configurations a wrong reply is detected. Not a proof for all inputs.'
TRUST = ' Trusted: TLC, the recording driver (harness/rdrive.c), the C compiler and the projection of inputs (integer spectra) in lib/gen.py.'
N = {
 'A01': ('library: result lists', ''), 'A02': ('library: confidences', ' Images are made from integer spectra, so that every comparison the methods make is exact; natural images are checked with tolerance.'),
 'A03': ('library: best guesses', ' MCDetect checks exhaustively that the documented measures give confidence 1 to odd spectra.'),
 'A04': ('library: sequences, and frame orders', ''), 'A05': ('library under injected faults', ' Faults at every allocation of an analysis.'),
 'A06': ('library: interleaved and threaded histories, with ThreadSanitizer', ' Interleavings in threads are those the scheduler gave.'),
 'A07': ('library: errors and outputs', ' All 16 combinations of outputs.'), 'A08': ('library: parameters', ''),
 'A09': ('library: compression filter', ' The documented positions are checked; the deviation of the code from them is a known finding.'),
 'A10': ('library: transposed and scaled images', ''), 'A11': ('library in 14 or more configurations', ''),
 'R01': ('readers: reads', ''), 'R02': ('readers: histories of reads and seeks from TLC', ' Every history of up to 7 operations over the abstract reader, up to equal last two operations and state.'),
 'R03': ('readers: samples', ''), 'R04': ('readers: headers and damage, with sanitizers', ''), 'R05': ('readers: truncation at every byte', ''),
 'R06': ('readers: sources', ''), 'R07': ('readers: choice of reader', ''), 'R08': ('bulk reading', ''), 'R09': ('pixel limits', ''), 'R10': ('PNG, JPEG and sequence readers', ' External codecs are trusted to encode the inputs.'),
 'R11': ('readers: errors of opening', ' What MagickWand leaves in errno is known only up to ENOENT.'),
 'M01': ('library: every allocation failing in turn, leaks, with sanitizers', ' Allocations made inside FFmpeg, MagickWand and libc are not made to fail.'),
 'U01': ('library: queries', ''),
 'C01': ('command line tool: output', ''), 'C02': ('command line tool: rejections', ''), 'C03': ('command line tool: frame selection', ''),
 'C04': ('imgread tool: frames written', ''),
 'T01': ('profile tool: counts and times', ''),
 'V01': ('visualize script', ' The tools spec and ImageMagick are not installed: stand-ins in harness/standin record what they are asked for.'),
 'P01': ('Python bindings: detection', ''), 'P02': ('Python bindings: reading', ''),
 'J01': ('JavaScript bindings', ' Emscripten is not installed: the library is compiled to WebAssembly with clang, and harness/wasm stands for the runtime emcc generates.'),
}
import sys
sys.path.insert(0, os.path.join(V, 'lib'))
names = set()
for f in os.listdir(os.path.join(V, 'lib')):
    if f.startswith('checks'):
        import re
        names |= set(re.findall(r"^@check\('(\w+)'", open(os.path.join(V, 'lib', f)).read(), re.M))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {}
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
for p in props:
    if p in names:
        what, note = N[p]
        m['checks'].append({'property': p, 'quick_cmd': './check.py ' + p, 'thorough_cmd': './check.py --thorough ' + p, 'technique': TRACE % what, 'level': 'model_checking', 'level_note': LIB.replace('library', 'code', 1) + note + TRUST})
    else:
        m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check has been built for it (yet)')})
m['notes'] = 'The specification is in spec/ (TLA+, checked with TLC); see DESIGN.md. No hooks: the drivers use the public interface and link-time wrapping of allocation functions.'
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
