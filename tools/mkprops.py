#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that ids, titles and texts stay in one readable place)."""
import json, os
S, F, FB, T, E_, X, V, C = ('oblate/schema.py', 'oblate/fields/', 'oblate/fields/base.py', 'oblate/type_validation.py',
                           'oblate/exceptions.py', 'oblate/contexts.py', 'oblate/validate.py', 'oblate/configs.py')
P = []
def p(id, title, statement, over, text, why, files, mech, **anch):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **anch)))
IH = ['inputs', 'programs']
SAMPLE = 'The tests construct a handful of fixed schemas; the statement quantifies over all class definitions and all data. '

p('C01', 'Construction accepts exactly the conforming data',
  'Constructing a schema instance from a mapping succeeds exactly when every key is the load key of a field (or unknown keys are ignored), every required field is given, no null is given to a field that disallows it, and every given value is accepted by its field and by all of its validators. Otherwise construction raises and there is no instance.',
  IH, 'every schema (fields of every type, flags, load keys, inheritance, hooks) and every mapping given to it',
  SAMPLE + 'An acceptance bug for a particular combination of flags, key names, null and field type passes all of them.',
  [S, FB], [('_prepare_from_data', S), ('_load_field_value', S), ('Field.value_load implementations', F)])
p('C02', 'A failed construction reports every error, each under its key',
  'When construction fails, the validation error carries exactly one error for every unknown key, every missing required field, every disallowed null, every value rejected by its field and every validator that fails - none is lost, duplicated or cut short by an earlier one. Each of them is grouped under the load key it belongs to.',
  IH, 'every schema, every mapping and every combination of failing fields and validators',
  SAMPLE + 'They mostly contain one error at a time, so aggregation across fields, validators and nesting is not decided by them.',
  [S, E_], [('error collection in _prepare_from_data', S), ('ValidationError._flatten_errors', E_), ('FieldError.key', E_)])
p('C03', 'Values after construction: loaded, default, None or unset',
  'After a successful construction, each given field holds exactly the value its loader returned (or None if null was given and is allowed). Each field that was not given holds its default if it has one - the value itself or the result of calling the factory with the instance context and the field - and otherwise is unset, so that reading it raises the field-not-set error or returns the fallback that was asked for.',
  IH, 'every schema, every subset of fields given and every kind of default (value, None, factory)',
  SAMPLE, [S, FB], [('_prepare_from_data', S), ('Field.default', FB), ('get_value_for', S)])
p('C04', 'A failed update or assignment leaves the instance unchanged',
  'If an update or an attribute assignment raises, whatever the reason (invalid data, frozen field, an arbitrary exception of user code), every field of the instance still has the value, or is still unset, as it was before. In particular an update never applies some of its keys and fails for others.',
  ['inputs', 'histories', 'fault_sequences'], 'every history of an instance, every update or assignment, and every point at which user code (loader, validator) may fail',
  'Atomicity is about the failure point: a key of an update fails after others succeeded. The tests look at the exception, not at the state that remains.',
  [S, FB], [('update', S), ('_update_from_data', S), ('Field.__set__', FB)], state=[dict(name='Schema._field_values', meaning='values of the fields of an instance')])
p('C05', 'A successful update or assignment changes exactly the given fields',
  'A successful update or assignment changes exactly the fields that were given, each to the value its loader returned (or None), and leaves all others alone; missing fields are not required. It enforces the same rules as construction: unknown keys, disallowed null, loading, and both kinds of validators.',
  ['inputs', 'histories'], 'every history of an instance and every update or assignment',
  SAMPLE, [S, FB], [('_update_from_data', S), ('_process_field_value', S), ('Field.__set__', FB)])
p('C06', 'Frozen schemas and fields never change after construction',
  'After construction no update or assignment ever changes a field declared frozen, or any field of an instance of a schema configured as frozen; it raises the frozen error, which names what is frozen. This holds for fields that are inherited, copied or overridden, for copies of an instance, and in the post-initialization hook, while construction itself may set them.',
  ['histories', 'programs'], 'every class hierarchy with frozen fields and frozen configurations, and every history of operations on its instances',
  'Whether a value can ever change is a statement about all histories; the tests try one assignment and one update.',
  [S, FB, E_], [('update', S), ('_update_from_data', S), ('Field.__set__', FB), ('FrozenError', E_)])
p('C07', 'Dump returns exactly the selected set fields under their dump keys',
  'Dumping an instance returns a new dictionary with exactly one entry for every field that has a value and is selected (in the included names if given, not in the excluded names if given), under the dump key of the field. The value is what the dumper of the field returns for the current value; giving both an inclusion and an exclusion is an error, and dumping never changes the instance.',
  ['inputs', 'histories'], 'every instance, every history of it and every selection of names',
  SAMPLE, [S, FB], [('_dump_fields', S), ('Field.dump_key', FB), ('value_dump implementations', F)])
p('C08', 'Failures while dumping are aggregated and attributed',
  'If the dumpers of some of the selected fields raise validation failures, the dump raises one validation error that carries all of them, each attributed to its field, the instance and the dump context, and no partial result is returned. A dump that fails leaves the instance and the library as they were.',
  ['inputs', 'fault_sequences'], 'every instance and every set of fields whose dumper fails, including fields of nested instances',
  'The tests have no case with several failing dumpers or a failing dumper of a nested instance.',
  [S, E_], [('_dump_fields', S), ('Object.value_dump', 'oblate/fields/nesting.py')])
p('C09', 'Nested objects are loaded with the rules of their own schema',
  'A field that holds an object of another schema accepts exactly an existing instance of that schema, which is kept as it is, or a mapping from which the other schema constructs an instance, with the init arguments given to the field. If that construction fails, its errors are reported below the key of the field in the outer error, at any depth, and next to the other errors of the outer schema; the errors of the inner fields still tell the inner instance.',
  IH, 'every nesting of schemas, every depth, every mapping or instance given',
  SAMPLE + 'Only depth one with few errors is sampled.',
  ['oblate/fields/nesting.py', S], [('Object.value_load', 'oblate/fields/nesting.py')])
p('C10', 'Nested objects are dumped recursively; dump and load round-trip',
  'Dumping a nested object gives the dump of the nested instance at that place, for every depth. If load and dump keys agree and the loaders accept what the dumpers produce, constructing an instance from the dump of another one gives an instance with equal values.',
  ['inputs', 'histories'], 'every instance of every nesting of schemas, after every history',
  SAMPLE, ['oblate/fields/nesting.py', S], [('Object.value_dump', 'oblate/fields/nesting.py'), ('dump', S)])
p('C11', 'Type expressions accept exactly the values that conform to them',
  'For every supported type expression (classes, Any, None, Union and Optional, Literal, List, Set, Dict, Mapping, Sequence, Tuple of fixed and variable length, TypedDict, the built-in generics and X | Y forms of them, nested arbitrarily), a value is accepted exactly when it conforms to the meaning of the expression, at every depth and at every position of a container. A rejected value is reported with a message for each of its parts that does not conform.',
  ['inputs', 'programs'], 'every type expression of the supported grammar and every value',
  'The grammar is recursive and containers have positions; the tests use one or two small expressions of each kind.',
  [T], [('TypeValidator', T)])
p('C12', 'TypedDict validation: required, optional and unknown keys',
  'For a TypedDict, validation accepts exactly dictionaries that have all required keys, no unknown keys, and values that conform to the type of their key. Which keys are required follows the totality of the class each key is defined in, and Required and NotRequired markers, through inheritance; every missing, unknown and ill-typed key is reported.',
  ['inputs', 'programs'], 'every hierarchy of TypedDict classes with any totality and markers, and every dictionary',
  'Inheritance with mixed totality and markers is not sampled by the tests.',
  [T], [('_handle_type_typed_dict', T), ('_handle_origin_required', T)])
p('C13', 'Standalone type validation reports every problem and honours its options',
  'Validating a mapping of values against a mapping of types succeeds exactly when every expected key is present (unless missing keys are ignored), every present one conforms, and there is no other key (unless extra keys are ignored). Otherwise the error lists exactly the keys that are missing, unexpected or ill-typed, each with its messages; neither mapping is modified.',
  ['inputs'], 'every mapping of types, every mapping of values and every setting of the options',
  'The tests have one case for each error kind.', [T], [('validate_types', T), ('TypeValidationError', T)])
p('C14', 'Unsupported type expressions accept every value and warn',
  'A type expression (or a part of one) that is not supported accepts every value and never makes validation raise anything, while the supported parts around it still decide. A warning is issued once for each unsupported type, the first time it is used for validation while these warnings are enabled in the global configuration, and none while they are disabled.',
  ['inputs', 'configurations', 'histories'], 'every unsupported type expression at every position of a supported one, every value, every history of switching the warnings',
  'The tests validate one unsupported type.', [T, C], [('_warn_unsupported', T), ('_process_value', T), ('warn_unsupported_types', C)])
p('C15', 'Primitive fields: strict checking and coercion',
  'In strict mode, string, integer, float and boolean fields accept exactly the instances of their type and keep the given value; otherwise they report an invalid datatype. Outside strict mode they additionally accept exactly the values their type can convert (for booleans: those whose text is among the true or the false values of that field), yield the converted value, and report a failed coercion otherwise.',
  ['inputs', 'configurations'], 'every value, both modes, and every set of true and false values',
  'The space of values (subclasses, numeric text, bytes, objects with odd conversions) is not sampled by the tests.',
  ['oblate/fields/primitive.py'], [('_process_value of String, Integer, Boolean, Float', 'oblate/fields/primitive.py')])
p('C16', 'Validators run exactly when, as often and in the order they should',
  'Whenever a value is loaded (construction, update, assignment), the raw validators of its field get the value as given and the others the loaded value, each exactly once, in the order they were registered; all of them run even if one fails. During construction they run only after all fields are loaded, so that they can read the other fields; validators other than raw ones do not run for null or for a value that could not be loaded, and no validator runs for a field that is not given. Validators that register or remove validators while they run change the runs after this one.',
  IH, 'every set of raw and normal validators, every pattern of failures, every operation',
  'Exactly-once and order are statements about all interleavings of failing and passing validators; tests look at outcomes only.',
  [S, FB], [('_run_validators', FB), ('_prepare_from_data', S), ('_process_field_value', S)])
p('C17', 'The validator registry of a field is exact and its own',
  'After any sequence of adding, removing and clearing validators on a field (constructor arguments, decorators and later calls), walking them yields exactly the registered ones in registration order, by kind (raw, not raw, or both), and exactly these run; what cannot be called is refused. The registry of a copy of a field starts equal and is independent, in both directions.',
  ['histories'], 'every sequence of registry operations over fields, their copies and subclasses',
  'Registry aliasing needs a history of copy and mutation on both sides.',
  [FB], [('add_validator / remove_validator / clear_validators / walk_validators', FB), ('Field.copy', FB)])
p('C18', 'Range, length, exclusion and disjunction validators decide exactly',
  'The range validator accepts exactly the integers between its bounds (inclusive, from zero if only one bound is given), and the one made from a standard range exactly the members of it; the length validator accepts exactly the lengths allowed by its minimum, maximum or exact length. Exclusion rejects exactly its values, and a disjunction accepts exactly the values that at least one of its validators accepts. Refused are configurations that decide nothing or contradict themselves: a range without bounds, a length without limits or with an exact length next to a limit, a pattern with both match modes.',
  ['inputs', 'configurations'], 'every configuration of the validators (bounds including zero and negative ones, steps, nested disjunctions) and every value',
  'Boundary values for all combinations of bounds are not enumerated by the tests.',
  [V], [('Range', V), ('Length', V), ('Exclude', V), ('Or', V)])
p('C19', 'The regex validator follows its match mode and flags',
  'The regex validator accepts a string exactly when the pattern, with the given flags, matches in the way of the chosen mode: at the beginning for match, the whole string for full match, anywhere for search. A pattern that is already compiled is used with its own flags; a value that does not match is rejected with the configured message, in which the value and the pattern are filled in.',
  ['inputs', 'configurations'], 'every pattern, string, mode and flag', 'The tests use one pattern for each mode.', [V], [('Regex', V)])
p('C20', 'Instances and copies of instances are independent of each other',
  'No operation on an instance ever changes the values or the state of another one, whether of the same or another class. A copy starts with the same values and state as the original, and afterwards assignments, updates and changes of the state on either of them do not show on the other.',
  ['histories'], 'every set of instances related by class, nesting or copying, and every history of operations on them',
  'Aliasing shows only in histories that touch one instance and look at all others.',
  [S, X], [('Schema.copy', S), ('SchemaContext._copy', X), ('get_value_for', S)])
p('C21', 'Fields and hooks are inherited by the rules of Python classes',
  'The fields of a schema class are, for each name, the one of the first class in its method resolution order that defines it, and each of them works under its own current load key, dump key and options on the subclass as it does on the parent. Overridden definitions leave no trace, and hooks are inherited in the same way.',
  ['programs'], 'every class hierarchy, including diamonds, several parents, overridden fields and changed load keys',
  'The tests have single inheritance of one level.',
  [S, FB], [('_SchemaMeta', S), ('Schema.__init_subclass__', S), ('Field._bind', FB)])
p('C22', 'Defining a class leaves other classes alone; a field is bound once',
  'Defining a schema class never changes the fields, load keys, validators or behaviour of any class that exists, in particular of its parents when it adds validators to inherited fields or overrides fields. Using the same field object in two places is refused; a copy of it can be used. What cannot be meant is refused as well: an object field of something that is no schema, a dictionary field with a key type only, a union field of fewer than two types, validators that cannot be called, a validator for a field that the class does not have.',
  ['programs', 'histories'], 'every sequence of class definitions over a hierarchy',
  'Damage to a parent shows only if the parent is used after the child was defined.',
  [S, FB], [('Schema.__init_subclass__', S), ('_is_bound / _bind', FB)])
p('C23', 'Every error tells its true schema, field, key and context',
  'Every field error that an operation reports tells the instance, the field, the key and the load or dump context in which it arose - whatever other operations of the library, successful or not, were carried out before it or by user code in the midst of it.',
  ['histories', 'fault_sequences'], 'every operation, every operation that user code carries out inside of it, every failure among these',
  'The attribution is ambient state of the thread: the interesting schedules are nested and failing ones, of which the tests have none.',
  [E_, S, 'oblate/utils.py'], [('FieldError.__init__', E_), ('current schema, field key and context', 'oblate/utils.py and their uses in oblate/schema.py, oblate/fields/base.py')])
p('C24', 'The ambient context is restored by every operation and per thread',
  'Each operation leaves the ambient attribution (current schema, field, key and context) as it found it, whether it returns or raises and wherever it fails, so that operations carried out by user code inside of other operations do not disturb these. Concurrent operations in different threads or contexts never see the attribution of one another.',
  ['schedules', 'fault_sequences', 'histories'], 'every nesting of operations, every failure point, every interleaving of threads',
  'Schedules and failure points are not under the control of the tests.',
  ['oblate/utils.py', S, FB, E_], [('context variables', 'oblate/utils.py'), ('set and reset around load, update, assignment and dump', S + ', ' + FB)])
p('C25', 'The global configuration in force is the one that was set last',
  'Every validation error is raised as the class configured at that moment (changed in place or by replacing the configuration as a whole), at every entry point and depth; the warning option works the same way. Assigning an invalid value is refused and leaves the configuration as it was.',
  ['histories', 'configurations'], 'every sequence of changes of the configuration between operations',
  'The tests change each option once.', [C, S], [('GlobalConfig', C), ('_get_global_config', C)])
p('C26', 'Unknown keys are rejected or ignored by the right rule',
  'Unknown keys are ignored exactly if the call asks for it, or if the call says nothing and the configuration of the class of the instance does; otherwise each is an error. This holds for construction, update and nested objects (where the init arguments of the field take the place of those of the call); ignored keys have no effect and do not make known keys be ignored.',
  ['configurations', 'inputs'], 'every combination of the option of the call, of the class and its bases, and of nested fields, with every set of keys',
  'The tests cover three of the combinations.', [S, C], [('ignore_extra in _prepare_from_data and _update_from_data', S), ('SchemaConfig', C)])
p('C27', 'Contexts and hooks follow the lifecycle of the instance',
  'Preprocessing gets the raw data before anything is loaded and its result is what is loaded; the post-initialization hook runs once, after a successful construction and only then, when all values are available. Every loader, dumper, validator, default factory and hook gets a context that tells the true instance, field, value, state, and whether the instance is initialized or being updated.',
  ['programs', 'histories'], 'every combination of hooks and user code, for every operation and outcome',
  SAMPLE, [S, X], [('Schema.__init__', S), ('LoadContext / DumpContext / SchemaContext', X)])
p('C28', 'Only validation failures become validation errors; others pass through',
  'ValueError, AssertionError and field errors (and subclasses of them) raised by a loader, dumper or validator become part of a validation error and never escape as themselves. Every other exception raised by user code, and every exception of a default factory or an initialization hook whatever its type, leaves the operation unchanged, as the very same exception.',
  ['fault_sequences', 'inputs'], 'every exception raised by every piece of user code at every place',
  'The tests raise ValueError and AssertionError only.', [S, FB, E_], [('exception handling in load, dump and _run_validators', S + ', ' + FB)])
p('C29', 'Rendering of validation errors is complete and faithful',
  'The raw form of a validation error is a JSON compatible dictionary with, under each key, all messages of that key in order, nested errors as nested dictionaries, for every depth; the text form tells the schema and the number of failing fields and contains the same messages, each below its key, which is shown with the name of the field where this is another. Rendering does not change the error, and an error with a sequence of messages counts as that many errors that keep its state and attribution.',
  ['inputs'], 'every structure of errors: any number of fields, messages of any type, lists of messages, nesting to any depth',
  'The tests render two structures.', [E_], [('_make_message', E_), ('raw / _raw_std', E_), ('_flatten_errors', E_)])
p('C30', 'The error formatter of a field decides the messages of default errors',
  'For every error the library itself reports for a field, the formatter of the field is called once with the error code and a context telling the true field, instance and value; the message or field error it returns is reported, and the default message if it returns none. Errors that user code raises with a message are never passed through it.',
  IH, 'every error code of every field type, every kind of result of the formatter, every operation',
  'The tests override two codes of one field type.', [FB, X], [('_call_format_error', FB), ('format_error', FB), ('ErrorContext', X)])
p('C31', 'Fields are looked up by name and by load key; unset fields are told apart',
  'The value of a field is found by its name, or else by its load key; an unknown name is an error and a field without a value raises the field-not-set error, which is also an attribute error and tells the field, the instance and the requested name, unless a fallback is given. Data is matched with load keys only, on construction and on update.',
  IH, 'every naming of fields, load keys and dump keys (also ones that coincide with names of other fields)',
  'Names and keys that overlap between fields are not sampled.', [S, FB, E_], [('_get_field', S), ('get_value_for', S), ('Field.__get__', FB), ('FieldNotSet', E_)])
p('C32', 'What the user passes in is never modified',
  'No operation modifies the mappings, values, lists of names, or init arguments that it is given - neither on success nor on failure, with any kind of mapping; values that are kept are kept as the very objects.',
  ['inputs'], 'every operation with every kind of mapping and nested container', 'The tests do not look at their inputs afterwards.',
  [S, T, F], [('_prepare_from_data', S), ('_update_from_data', S), ('value_load implementations', F)])
p('C33', 'Schema configuration is inherited and takes effect',
  'A schema class without its own configuration behaves by that of its parent, and one with its own by this alone (options that neither it nor a base of it mentions have their documented defaults). The options take effect exactly as documented: frozen instances, ignored unknown keys, slotted instances (no attribute other than fields can be set unless a class of the hierarchy is not slotted) and the generated representation, which shows every field that is set.',
  ['programs', 'configurations'], 'every hierarchy of configurations', 'The tests check each option on one class.',
  [C, S], [('SchemaConfig', C), ('_SchemaMeta', S), ('_schema_repr', S)])
p('C34', 'Interleaved operations do not interfere with each other',
  'Operations that work on different instances are independent, also if they are interleaved: an operation that user code carries out in the middle of another one, in the same or in a copied context, and operations of different threads that are suspended anywhere in between, each return the result, report the errors, call the user code and leave the values that they do when they are executed one after the other - although they share classes, fields, validators and configuration.',
  ['schedules', 'histories'], 'every set of operations on different instances of shared classes, every nesting of one in another and every interleaving of threads',
  'No test interleaves operations. State that is kept per class, per field or per process instead of per operation is invisible until two operations overlap.',
  [S, FB, X, E_, 'oblate/utils.py'], [('state of an operation: errors, pending validators, ambient attribution', S), ('contexts passed to user code', X), ('context variables', 'oblate/utils.py')])
if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
