import json,ast,re
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
reach={
'C01':"Sanitizers see silent out-of-bounds accesses, signed overflows and bad float-to-int casts which return plausible numbers; values, integers, shapes, objects, files and models are all hostile; endless loops are caught by a per-case deadline; `exit()`/`STOP` in the Fortran library is a violation. Bound: sanitizers watch our C and Fortran only (numpy, Python, cdf are not instrumented); uninitialised reads are left to C03 (poisoned memory) because MSan cannot run under the uninstrumented interpreter.",
'C02':"Live blocks/bytes are counted by interposed allocators over rounds of (r, r, 2r, 10r, 20r) repetitions, so a leak of one object in 10 calls on an error path shows as growth proportional to the rounds; fault injection denies the k-th (and following) allocation of a call for every k seen. numpy's own known leaks and the interpreter's transient objects are discounted; allocations made inside the Fortran runtime are not denied (libgfortran aborts by design).",
'C03':"Results are compared bit for bit with those of a fresh process, after hundreds of unrelated calls, with heap and stack pre-filled by different patterns, in concurrent threads, and along chains of points with repeating components (caches of the previous point). Settings of the process (error states, print options, generators, filters, environment, time zone, locale, directory, rounding, signal handlers) are varied and compared before and after every call. Arguments are checksummed before and after.",
'C04':"Every argument is independently scalar/array, C/Fortran/strided/reversed/unaligned/byte-swapped/read-only/integer/float32/list, 0 to many dimensions, empty or hundreds of points; each element is re-evaluated alone.",
'C05':"Locations include the poles, the date line, the surface, the evolute region near the centre, huge distances and signed zeros; every coordinate is compared with the exact geometry, plus round trips through chains and continuity.",
'C06':"All frame rotations against unit vectors obtained by moving the converted point - ties rotations to conversions, which no test does.",
'C07':"Element by element in extended precision up to degree 1500, at 1e-15 degrees from the poles; both longitude algorithms; both source types.",
'C08':"All nine coordinate type pairs x modes x source types x degree truncation x scale forms, stacked coefficients, linearity, and the packaged models up to degree 185.",
'C09':"Uses no reference series: 4th order finite differences of the potential, div/curl of the field, and frame independence. Detects errors which a re-implementation of the same series would share.",
'C10':"Nodes, both their floating point neighbours, NaN, infinities, duplicates, every side/kind/extrapolation mode.",
'C11':"The state machine of `shevaltemp` (cached interval per set, shared terms, repeated times) is driven by unsorted, repeated and non-finite times with 1-16 sets.",
'C12':"All ranges of minimum degrees (negative, mixed), any trailing shapes, time pairs in any order.",
'C13':"Every sub-range of degrees and every time class (nodes, before, after, outside of validity), combined sets with different time scales and validities.",
'C14':"Segments generated touching, overlapping, nested, unsorted; queried exactly at, one ulp before and after every boundary; composed sets inside combined sets and vice versa.",
'C15':"Whole-model evaluation: shapes of time and location broadcast against each other, validity edges, degree limits of every kind, NaN outside of the validity, packaged models.",
'C16':"Components of all kinds (SH, MIO, dipole) with scales and forwarded options, recorded by a stand-in component, nested compositions, growth step by step.",
'C17':"Files are written by a generator (layout variations: blank lines, comments, row order, precision, exponent formats) and the packaged files re-read independently; malformed files must be rejected and leave the package usable.",
'C18':"F10.7 scaling, MUT/seasonal series, tilted dipole frame and the current sheet evaluated by the double sums of the definition.",
'C19':"CDF products are written with real `spacepy`/`cdf` writers in a scratch directory in any order, damaged, overlapping or incompatible.",
'C20':"Rigid rotation in extended precision plus invariants (angles, distances, pole, prime meridian) and rotated coefficients.",
'C21':"Every year boundary +- ulps, leap years, negative and ancient years, datetime objects, monotonicity, inversion within the rounding of the input.",
'C22':"Independent ephemeris and geometry; exactly overhead/antipodal/polar/terminator locations.",
'C23':"Arbitrary pole positions and times, sub-solar point given as array, scalar, zero or absent.",
'C24':"Histories mixing coefficient files (packaged and generated), epochs, altitudes and base vector requests exercise the Fortran module's saved state; values compared with the expansion in the file; base vectors against differences.",
'C25':"Midnights, month and year ends, leap days, the whole supported range of years; any order of the times in a batch (the code caches the day).",
'C26':"Every returned point, vector, step length, and termination reason is judged against the model; analytic dipole lines; scaled/absent components; both directions.",
'C27':"Zero, tiny, huge vectors, any leading shapes.",
'C28':"One thing is made invalid at a time in an otherwise valid random call; an exception is required, and a panel of unrelated calls must be unaffected afterwards.",
'C31':"Models are those of C04 (synthetic, dipole, published, ionospheric, composed); the pickled forms use all protocols since 2 and are evaluated in this and in a forked pristine process.",
'C30':"Call sequences, buffers, files and failures are random; the Fortran conversions are sampled over all latitudes and heights up to 2000 km; the library is the one loaded by the extension.",
'C29':"The shipped files are a fixed data set: every model, epoch range, coefficient and apex file is visited; places, heights and times within them are random.",
}
out=open('/verif/tools/design_head.md').read()
for k in sorted(P):
    p=P[k]
    src=open(f'/verif/vk/checks/{k.lower()}.py').read()
    t=ast.parse(src)
    rule=''; assum=[]; variant='plain'
    for n in t.body:
        if isinstance(n,ast.Assign) and getattr(n.targets[0],'id','')=='REG':
            for kw in n.value.keywords:
                if kw.arg=='rule': rule=ast.literal_eval(kw.value)
                if kw.arg=='assumptions': assum=ast.literal_eval(kw.value)
                if kw.arg=='variant': variant=ast.literal_eval(kw.value)
    fams=[]
    for n in t.body:
        if isinstance(n,ast.FunctionDef) and any('REG' in ast.dump(d) for d in n.decorator_list):
            d=' '.join((ast.get_docstring(n) or '').split())
            v=''
            for dec in n.decorator_list:
                for kw in getattr(dec,'keywords',[]):
                    if kw.arg=='variant': v=' [%s]'%ast.literal_eval(kw.value)
            fams.append(f'`{n.name}`{v} ({d})')
    out+=f"### {k} {p['title']}\n\n"
    out+=f"*Observed:* {rule}.\n*Workloads ({variant}):* {'; '.join(fams)}.\n*Reach and bounds:* {reach[k]}\n"
    if assum: out+="*Assumptions:* "+'; '.join(assum)+'.\n'
    out+='\n'
out+=open('/verif/tools/design_tail.md').read()
open('/verif/DESIGN.md','w').write(out)
import glob,os
rows=[json.loads(l) for l in open('/verif/known_findings.jsonl')]
fx="| property | commit | what failed |\n|---|---|---|\n"+''.join(f"| {r['property']} | {r['commit']} | {r['what']} |\n" for r in rows if r['status']=='fixed')
bg="| bug | property | needs | breaks | caught by |\n|---|---|---|---|---|\n"
missed=set(json.load(open('/verif/tools/missed.json'))) if os.path.exists('/verif/tools/missed.json') else set()
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json')); b=os.path.basename(d)
    bg+=f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {'missed' if b in missed else m['property']} |\n"
s=open('/verif/DESIGN.md').read().replace('@FIXES@',fx).replace('@BUGS@',bg)
open('/verif/DESIGN.md','w').write(s)
