import json
props = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
LIBN = ('Verus proves, for all inputs, the real source of the library impls (macro-expanded and extracted from /repo on every run) against their contracts, and the theorems of the property over those contracts. '
        'Assumed: the contracts of nom 8 and core/alloc in verus/prelude.rs, the extractor. Bounded (not proof): native differential runs, %sbuilds without alloc.')
TREE = 'The macro\'s own functions from attribute lists to parser trees are proved for all declarations (model of syn\'s types, text of quote! opaque). '
DERN = ('Verus proves, for all inputs and with callees known by contract only, every function the macro generates for the hand-written and generated programs of the run: universal over inputs, by sample over programs. '
        'Code is what /repo\'s macro generates on this run, extracted mechanically. The macro\'s own functions from attribute lists to parser trees are proved for all declarations (model of syn\'s types, text of quote! opaque). Assumed: contracts of nom 8 and core/alloc (verus/prelude.rs), user code opaque and deterministic, the extractor. Native differential runs (bounded) look for concrete inputs.')
checks = []
for i in sorted(props):
    c = dict(property=i, quick_cmd=f'python3 nv/check.py {i} --tier quick', thorough_cmd=f'python3 nv/check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json')
    if i in ('C01', 'C02', 'C03'):
        c.update(technique='contracts on the real library source, discharged by Verus' + (' (nom number parsers: Kani)' if i == 'C01' else ''), level='proof', level_note=LIBN % ('Kani on symbolic buffers for nom\'s number parsers, ' if i == 'C01' else ''))
        c['theorems'] = {'C01': [f'thm_{t}_{m}' for t in 'u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64'.split() for m in ('sp', 'sp_be', 'sp_le')], 'C02': ['thm_option', 'thm_vec', 'thm_pair'], 'C03': ['thm_length_data']}[i]
    elif i == 'C15':
        c.update(technique='contracts on the functions of the macro that read attributes, decide and build parser trees, discharged by Verus; exhaustive compilation of a finite family of declarations (bounded)', level='exploration', level_note='Proved for all attribute lists, types and declarations (model of syn\'s types): what the functions of nom-derive-impl that read attributes, detect contradictory byte orders and misplaced, unknown or argument-less attributes, look for lists and options, and build the trees of structures and enums accept and refuse (extracted from /repo on every run). Bounded: that the derive entry points turn a refusal into a compile error, and names: every declaration of a finite family (attribute x position x shape) is compiled with the real macro.')
    else:
        c.update(technique='contracts on the macro-generated code' + ('' if i == 'C13' else ', and on the macro\'s functions from attributes to parser trees') + ', discharged by Verus', level='proof', level_note=DERN if i != 'C13' else DERN.replace(TREE, ''))
    checks.append(c)
m = dict(version=1, setup_cmd='python3 nv/setup.py', checks=checks, not_applicable=[], notes='No hooks in /repo. See DESIGN.md. A violated obligation without a concrete input ends its line with no-failing-input-found; python3 nv/check.py --replay FILE runs a recorded input again.')
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
