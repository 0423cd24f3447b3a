#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = ('Static: the functions are abstractly interpreted from the syntax tree, all paths, values unknown; nothing of the repository is executed and no solver decides. '
      'Trusts the models of builtins in marshlint/models.py; a path that leaves what they cover is counted as undecided in the evidence, never reported. ')
CHECKS = {
    'C01': ('abstract interpretation: effect analysis with ownership of containers', AI),
    'C02': ('abstract interpretation: exception-escape analysis of every unmarshal method', AI + 'User callables (constructors, factories, hooks) may raise anything.'),
    'C03': ('abstract interpretation: provenance of the error path attribute', AI + 'Container sizes are unbounded (summarised), field layouts enumerated.'),
    'C04': ('abstract interpretation: path-sensitive default-value dataflow', AI),
    'C05': ('abstract interpretation: path-sensitive tracking of the missing marker', AI),
    'C06': ('abstract interpretation: consumption of input items per field layout', AI + 'Layouts are enumerated up to four keys or five items.'),
    'C07': ('abstract interpretation: item-to-schema correspondence with summarised collections', AI),
    'C08': ('abstract interpretation: ordered-choice protocol of union-like schemas', AI + 'Members are enumerated up to three.'),
    'C09': ('abstract interpretation: annotation protocol (order, count, which value and which error) over bounded annotation lists', AI),
    'C10': ('abstract interpretation: the condition under which each built-in annotation accepts, compared with its stated condition', AI),
    'C11': ('abstract interpretation: provenance of every part of the marshaled value', AI + 'Field layouts are enumerated, containers summarised; distinct keys are assumed to have distinct texts.'),
    'C16': ('abstract interpretation: merge over bounded tree shapes with unknown leaves, result tree compared with the specified one', AI + 'Trees are enumerated up to three entries per level and two levels; leaves are unknown.'),
    'C17': ('abstract interpretation: element get, set, override and remove over bounded tree shapes with unknown leaves', AI + 'Trees and paths are enumerated up to three components.'),
    'C26': ('abstract interpretation with standard-library declarations as constants: the kind predicates on representatives of every kind of value and type', AI + 'What treats alike what declares the same is assumed; the representatives are listed in marshlint/shapes.py.'),
    'C27': ('abstract interpretation: tree scans over bounded trees with unknown leaves of every kind, totality of the suggestion helpers', AI + 'Trees are enumerated up to four levels.'),
    'C28': ('abstract interpretation: path conditions of primitive conversion', AI),
    'C29': ('abstract interpretation: path conditions of literal and enum matching', AI + 'Members are enumerated up to three.'),
    'C30': ('abstract interpretation: argument binding of structured constructors per parameter layout', AI + 'Layouts are enumerated; values unknown.'),
    'C31': ('abstract interpretation: typed dict totality, requiredness and construction per field layout', AI + 'Layouts are enumerated; values unknown.'),
    'C12': ('abstract interpretation: the registrations are interpreted in import order, then the choice of a schema for representatives of every kind of type and value', AI + 'The representatives are listed in marshlint/shapes.py; no third-party schema is registered.'),
    'C13': ('abstract interpretation: histories of registrations and look-ups through the memo tables, answers compared with those of a history without memory', AI + 'Histories are enumerated up to the listed steps; the memo semantics are those of the cache decorators with the options written at each use (C14 checks the decorator itself).'),
    'C14': ('abstract interpretation: histories of calls of decorated functions and methods, answers compared with those of the undecorated function', AI + 'Histories are enumerated up to three calls over argument lists that cover equal, distinct, equal-but-differently-typed, keyword and un-hashable arguments; the caching decorator is interpreted with every option.'),
    'C39': ('abstract interpretation: every documentation method of every schema type is interpreted on symbolic field schemas, the record and the rendered help text compared with the declared fields and call arguments', AI + 'Structured types have up to five fields, calls up to three positional and two keyword arguments, nesting up to three levels; rendered paragraphs (textwrap) are opaque.'),
    'C41': ('abstract interpretation: select() of every schema type is interpreted on paths of every shape, the answer compared with the schema the path names', AI + 'Paths are enumerated constants of up to three parts; structured types have up to three fields.'),
    'C42': ('abstract interpretation: provenance of every returned value, compared with the class asked for, over the schemas that (by interpreting registrations and match methods) serve subclasses of built-in classes', AI + 'Subclasses are represented by one per built-in class; a class called gives an instance of itself.'),
    'C34': ('abstract interpretation: exhaustive exploration of the abstract states of the containers, compared with an ordered dictionary', AI + 'Operation sequences up to length five (SafeDict) and three (ValueCache) over two hashable and two un-hashable unknown keys; identical abstract states are explored once.'),
    'C32': ('abstract interpretation: exhaustive exploration of insertion histories of the priority order, order compared with every stated relation', AI + 'Histories are bounded in length; values are distinct opaque objects.'),
    'C33': ('abstract interpretation: exhaustive exploration of interleaved reads of buffered iterables, compared with the complete source sequence', AI + 'Sources are bounded in length; their elements are opaque.'),
    'C15': ('abstract interpretation over a text domain: fields of unknown ordinary characters and every special character are joined and split, results compared with the fields', AI + 'Fields are words of bounded length over character classes; runs of ordinary characters are unbounded.'),
    'C18': ('abstract interpretation over a text domain: the recursive descent parser is interpreted on texts of character classes, the parsed element compared with a grammar of the documented syntax', AI + 'Texts are words of bounded length over character classes; runs of ordinary characters are unbounded.'),
    'C19': ('abstract interpretation: provenance of every value made from unknown text, and constant propagation of integer texts through every conversion', AI + 'Constants cover the limits of every other representation.'),
    'C20': ('abstract interpretation: effect ordering of the command line over argument vectors with every step able to fail', AI + 'Argument vectors hold up to three overrides; argparse is a model that reads the declared options.'),
    'C21': ('abstract interpretation: typestate of the working directory over all exits', AI),
    'C22': ('abstract interpretation: ordering of encode, open and write effects; query for unsafe loaders; file lookup over bounded listings', AI),
    'C23': ('abstract interpretation: keys of the configuration that reaches the schema, per shape of the resolved configuration', AI),
    'C24': ('abstract interpretation: registration and addressing of components over bounded namespace trees', AI + 'Namespace trees are enumerated; component names and classes are pairwise distinct unknowns.'),
    'C25': ('abstract interpretation: delegation identity of wrapping schemas', AI),
}
NA = {
    'C35': 'Quantifies over the runtime equality of user values after a round trip; no static argument here bounds user-defined __eq__, constructors and hooks (the static halves are C07 and C11).',
    'C36': 'The library takes no locks and documents no thread safety; interleavings of plain dictionary updates are decided by the interpreter at run time, not by the source.',
    'C37': 'Termination on recursive types depends on the run-time graph of user types; the static part (recursion markers always cleared) is checked under C13.',
    'C38': 'The interpretation of a textual date is made inside the third-party dateparser package from run-time text and settings; its source is outside the repository.',
    'C40': 'Which object a name denotes is decided by run-time namespaces (modules, frames) of user code that is not part of the analysed source.',
}


def main():
    ids = []
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        for line in f:
            ids.append(json.loads(line)['id'])
    m = {
        'version': 1,
        'setup_cmd': 'python3 -m marshlint.selfcheck',
        'checks': [{
            'property': i,
            'quick_cmd': f'python3 -m marshlint.check {i}',
            'thorough_cmd': f'python3 -m marshlint.check {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': CHECKS[i][0],
            'level': 'other',
            'level_note': CHECKS[i][1].strip(),
        } for i in ids if i in CHECKS],
        'not_applicable': [{'property': i, 'reason': NA.get(i, 'no check has been built for it yet')} for i in ids if i not in CHECKS],
        'notes': 'All checks are static: marshlint/ parses the syntax trees of /repo/marsh on every run and decides properties by abstract interpretation and syntax-directed rules. See DESIGN.md.',
    }
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
