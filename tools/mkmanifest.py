#!/usr/bin/env python3
"""Write MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the source'
TRUST = ('Trusts the analyser (xa/) and its models of Python built-ins, the standard library and lxml; '
         'functions reached only through those models are not analysed. ')
CLAIMS = {
    'P01': (AI + ' to a fixpoint over an unbounded rule list, oracle from XACML 2.0 Appendix C',
            'Every abstract path of the three algorithms for lists of any length; rule outcomes and effects range over all values. ' + TRUST),
    'P02': (AI + ' to a fixpoint over an unbounded policy list, oracle from XACML 2.0 Appendix C',
            'Every abstract path of the three algorithms for lists of any length. ' + TRUST),
    'P03': (AI + ', decision table over target x condition x effect',
            'All combinations of target outcome, kind of condition value and effect, over every abstract path of Rule.evaluate '
            'and Condition.evaluate. ' + TRUST),
    'P04': (AI + ', decision table over target x combining algorithm outcome',
            'Every abstract path of policy, policy-set and decision-point evaluation. ' + TRUST),
    'P05': (AI + ' to a fixpoint over unbounded sections and entries, three-valued oracle',
            'Every abstract path for any number of entries and match elements in the four sections. ' + TRUST),
    'P06': (AI + ' to a fixpoint over an unbounded bag, three-valued oracle',
            'Every abstract path of the four match classes for bags of any size, and every order of setting designator and selector. ' + TRUST),
    'P07': (AI + ' to a fixpoint over sections holding anything around one distinguished attribute value',
            'Every abstract path of the four designators for sections of any size; the information point is analysed for requests '
            'with one and two subjects. ' + TRUST),
    'P08': (AI + ' to a fixpoint over an unbounded selection of texts, for every data type',
            'Every abstract path of AttributeSelector.evaluate for every supported data type and an unknown one. ' + TRUST),
    'P09': (AI + ' to a fixpoint over an unbounded operand list',
            'Every abstract path of Apply.evaluate for any number of operands, of AttributeValue.evaluate and of the identifier setters. ' + TRUST),
    'P10': (AI + ', every implemented function applied to operands of every kind',
            'Every function the map resolves, operand counts 0 to 3 and any number for variadic functions, operands of every data type, '
            'bags, raw values and foreign objects. ' + TRUST),
    'P11': (AI + ', results compared with the definition of each function as equality facts',
            'Every function the map resolves; and, bag and one-and-only for any number of values, at-least-one-member-of for bags of up to '
            '2 values (3 in thorough), concatenate for 2 to 5 operands. What round and re do is trusted. ' + TRUST),
    'P12': (AI + ', every identifier looked up in the reconstructed tables and the resolved class compared with the definition',
            'Every standard identifier, looked up fresh, in both orders and through both access paths; about 2500 other identifiers; '
            'every identifier assigned to function applications and matches; both combining-algorithm tables. Unknown identifiers are '
            'a finite sample. ' + TRUST),
    'P25': (AI + ', every data type against every native type and every other data type',
            'All 16 data types; values are unknowns of their native type; the identifier look-up is analysed for any string. ' + TRUST),
    'P17': (AI + ', every adding or replacing operation on containers of unknown content',
            'Typed lists of any length and of two, items of every kind given one by one, as list, tuple, one-pass iterator and unknown '
            'collection; unique lists of up to two members and three items under every equality; dictionaries with known and unknown keys. '
            'List repetition is not counted as adding items. ' + TRUST),
    'P18': (AI + ', every public attribute of every model class assigned every kind of value, on new and filled objects',
            'All concrete classes of the policy and context model; about 40 kinds of value per attribute including unknown subclasses; identifier attributes over supported, unsupported and unknown identifiers. Attributes added later are not in the table. ' + TRUST),
    'P19': (AI + ', every assignment to every attribute of every constant; all comparisons',
            'Every public attribute of the six constants against every kind of value; comparisons with constants, fresh objects, any text and foreign values; a syntactic rule covers stores to the private slot. Protocol methods such as __setstate__ are not treated as assignments. ' + TRUST),
    'P21': (AI + ', the pickle protocol applied to every context object with every field unknown',
            'Protocol 2 and later as Python defines it (reduce, getstate, slots, importability of the class); every model class of the property new and with all fields unknown, with and without lxml; typed lists of up to two items. ' + TRUST),
    'P24': (AI + ', search path and namespace table at every exit; every statement of the library for changes to objects of other modules',
            'Loading with no, empty, new and repeated paths, over succeeding and failing imports; pretty printing of seven document shapes with both XML back-ends, successful and failing. Process-wide changes elsewhere are found syntactically through import names, aliases and a table of setters of the standard library. ' + TRUST),
    'P22': (AI + ', every lookup before and after every kind of registration',
            'All standard function and data type identifiers, near misses and new identifiers; registrations by object and by path, repeated, of wrong kinds and failing. The mapping interface of the tables themselves (item assignment) is not judged. ' + TRUST),
    'P13': (AI + ', one distinguished child of any name among any others, for every reader',
            'Every reader of the policy schema, with either XML library; child readers stand in by their own contract (refuse another element name, read, or fail). Element names range over every word the library or the schema knows and near misses. XML attribute values of enumerated kinds range over representatives. ' + TRUST),
    'P14': (AI + ', one or two distinguished children among any others, for every reader',
            'Every reader of the policy schema, with either XML library, for documents of any size; every subset of XML attributes. Two AttributeValue elements in one match are a known finding. ' + TRUST),
    'P15': (AI + ' of the readers, and of every finder over histories of registrations and lookups with any ids',
            'Registrations and lookups range over all ids; histories hold up to three registrations before a lookup (the tables are keyed, so more entries add nothing). Reading the referenced document is stood in for: it fails or registers a policy, a policy set, both or nothing. ' + TRUST),
    'P23': (AI + ' of the URL finder, the default finder and the fetcher, with references of every form whose rest is unknown text, any base directory, source, environment and outcome of opening',
            'Reference forms: file:// with absolute, ./ and plain relative paths; http, https, ftp; absolute, ./ and plain relative paths; the rest of a reference is arbitrary text without "://". The terms that reach the opener are compared with the location meant (POSIX os.path rules); what urllib itself makes of a URL or of the environment is taken as given. Host names are compared ignoring white space around the listed names, upper or lower case either way. ' + TRUST),
    'P20': (AI + ' of every converter of requests, responses and their parts, with either XML library',
            'One part x among any number of others before and after it (so every part, of documents and objects of any size), every subset of attributes, unknown text; each converter is analysed after another conversion, so that nothing carries over. Converters of parts are stood in for by the contract checked for each of them. Values of other than string data types, status and obligations of results are not claimed. ' + TRUST),
    'P16': (AI + ' with an effect analysis: every write met while the evaluation scenarios of P01 to P11 are explored is attributed to an object of the evaluation or to one that outlives it',
            'Judged over the scenarios that P01 to P11 explore (one evaluation of each kind of element, its parts being unknown), and the text selection of EtreeXPathSelector; schedules are covered because nothing shared is written. A cache is accepted where the value depends on its key only. ' + TRUST),
}
NA = {}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if p in CLAIMS:
            t, n = CLAIMS[p]
            checks.append({'property': p, 'quick_cmd': './check %s --tier quick' % p,
                           'thorough_cmd': './check %s --tier thorough' % p,
                           'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n.strip()})
        else:
            na.append({'property': p, 'reason': NA.get(p, 'no check built yet')})
    m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
