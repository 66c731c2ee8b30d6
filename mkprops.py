#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
F='src/easyMockFramework/'; G='src/easyMockGenerate/'
MF=F+'src/MockedFunction.c'; MH=F+'include/MockedFunction.h'; EM=F+'src/easyMock.cpp'; MA=F+'src/easyMock_matcher.cpp'
CS=F+'src/cstring.c'; GL=F+'src/easyMock_glueStdlib.c'; CT=G+'src/CTemplateGenerator/CodeGeneratorCTemplate.cpp'; LP=G+'src/LLVMParser/LLVMParser.cpp'
CL=G+'src/CmdLineParser/CmdLineParser.cpp'; MN=G+'src/main.cpp'
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
p('C01','Each mocked call gets exactly its own queued expectation, intact and once',
  'For every C mock and every history of expectations and calls, the n-th call made to the mock since the last reset is answered with the exact bytes recorded by the n-th expectation, as they were when the expectation was recorded. Each recorded expectation is handed out at most once, and recording or consuming one expectation never alters any other pending one or any other mock.',
  ['histories','inputs'],'every reachable state of a mock (any number of expectations up to the capacity, any number of calls, consumed or skipped entries), every expectation size and content',
  'Tests queue one to three expectations of a few fixed types per mock; the guarantee is over all queue fill levels, all data sizes and all interleavings.',
  [MF,MH,GL],[('snapshot of the expectation on queueing',MF+':MockedFunction_addExpectedCall'),('index of the current call',MF+':MockedFunction_getCurrentIdx'),('copy out and release',MF+':MockedFunction_getCurrentCallParam')],
  [('expected/actual counters','number of expectations recorded and of calls made since the last reset',MH),('slot array','one owned heap block per pending expectation',MH)],['bytes delivered to the caller of the mocked function runtime'])
p('C02','Call-count verdict is exact and an excess call is always detected',
  'Verification of a mock succeeds if and only if the number of calls made since the last reset equals the number of expectations recorded, and when it fails exactly one error is recorded that names the function, the expected number and the actual number. A call is accepted if and only if an expectation with that call number had been recorded; every call, accepted or not, is counted.',
  ['histories','inputs'],'every pair of expected and actual counts and every mock name, at any point of any history',
  'Tests compare a handful of small count pairs (0/1/2/3).',[MF,MH],[('count comparison',MF+':MockedFunction_verify'),('call accounting',MF+':MockedFunction_addActualCall')],
  [('expectedCall, actualCall','the two counters',MH)],['return value of verification','recorded error'])
p('C03','Resetting or initialising a mock forgets everything and releases all its memory',
  'After a mock is initialised or reset, from any state whatsoever, it behaves as a brand new one: no expectation is pending, both counts are zero, and its name and data size are kept. Reset returns every block the mock still held to the allocator exactly once, touches nothing else, and may be repeated.',
  ['histories'],'every state a mock can be in when it is reset, with any subset of its slots occupied',
  'Tests reset mocks that hold at most a few expectations and do not check ownership of every slot.',[MF],[('queue emptying',MF+':MockedFunction_emptyDataQueue'),('reset',MF+':MockedFunction_reset'),('init',MF+':MockedFunction_init')],
  [('slot array','owned heap blocks',MH)],['state after reset','allocator calls'])
p('C04','A full expectation queue or a failed allocation stops the run, never corrupts it',
  'Recording an expectation when the mock already holds its maximum number, or when memory for it cannot be obtained, ends the process with a failure status before any mock state or memory outside the queue has been written. No operation of the C mock runtime reads or writes outside the mock, the caller\'s data buffer and its own blocks.',
  ['fault_sequences','histories','inputs'],'every state of the mock and every outcome of each memory allocation',
  'Tests never exhaust the queue nor make an allocation fail.',[MF],[('capacity guard',MF+':MockedFunction_addExpectedCall'),('allocation guard',MF+':MockedFunction_addExpectedCall')],
  [('capacity','maximum number of expectations between two resets',MH)],['process exit status','memory written'])
p('C05','Built-in comparators decide equality of every pair of values exactly',
  'For each built-in value comparator (all C integer widths and signs, character, floating, 128-bit, pointer and string) and its pointer-dereferencing variant, the result is zero if and only if the two values compare equal in C, for every pair of values of that type. No comparator modifies the values it compares.',
  ['inputs'],'every pair of bit patterns of each type (including NaN, signed zeros, extreme values, NUL and 128-bit halves); every pair of strings',
  'Tests compare one equal pair and one or two unequal pairs per type.',[MA,F+'include/easyMock.h'],[('comparator family',MA+':IMPLEMENT_MATCHER'),('string comparator',MA+':cmp_str'),('128-bit comparators',MA+':cmp_int128')],
  (),['comparator return value'])
p('C06','Comparator diagnostics report the right values and stay inside their buffer',
  'When a built-in comparator reports a mismatch, the message it leaves names the parameter, then the value received, then the value expected, each rendered completely and correctly for its type unless the 256-byte message limit cuts the text. It never writes beyond that limit, always terminates the message, and leaves the buffer untouched when the values are equal.',
  ['inputs'],'every pair of unequal values of each type, every parameter name and every string length',
  'Tests look at the message for one small value per type; wide values, embedded zero digits and over-long strings are not tried.',[MA],[('message formatting',MA+':IMPLEMENT_MATCHER'),('bounded printing',F+'include/easyMock.h:EASYMOCK_MAX_CMP_ERR')],
  (),['message buffer'])
p('C07','The small dynamic string concatenates, measures and compares exactly',
  'For every sequence of creations and appends, whatever the lengths involved, the dynamic string holds exactly the concatenation of the pieces, reports its exact length, and compares like the C library on its content. It never accesses memory outside its own storage, owns at most one heap block and releases it when freed.',
  ['inputs','histories'],'every content length, including those around the switch from inline to heap storage, and every number of appends',
  'Tests append a few strings of selected lengths.',[CS,F+'include/cstring.h'],[('append with inline/heap switch',CS+':cstring_append'),('length',CS+':cstring_length'),('release',CS+':cstring_free')],
  [('inline buffer and heap pointer','where the content lives',F+'include/cstring.h')],['string content','length','comparison result'])
p('C08','The overall verdict is success exactly when nothing went wrong',
  'The global check answers success if and only if every registered mocked header verifies and no error has been recorded since initialisation. Every registered header is verified exactly once on every check, even when an earlier one already failed, and a header that was unregistered is not.',
  ['histories','inputs'],'every set of registered headers, every combination of their verdicts and every number of recorded errors',
  'Tests register one or two headers with a single failing mock.',[EM],[('verification of all headers',EM+':verifyRegisteredMockedFile'),('verdict',EM+':verifyEasyMock')],
  [('registered headers','set of callbacks',EM),('error list','errors recorded so far',EM)],['check result'])
p('C09','Recorded errors are reported completely, in order and unaltered',
  'The error report, both as one text and as an array, contains exactly the errors recorded since initialisation, each with the formatted text it was recorded with, in the order of recording; the array length equals their number. With no recorded error both reports are empty, and asking for a report changes nothing.',
  ['histories','inputs'],'every sequence of recorded errors, of any number, length and content, with any number of report requests in between',
  'Tests read back one or two short errors.',[EM],[('error list',EM+':addError'),('text report',EM+':getErrorStr'),('array report',EM+':getErrorArr'),('formatting',EM+':easyMock_addError')],
  [('error list','errors recorded so far',EM)],['both error reports'])
p('C10','Expected calls are kept in one global first-in first-out order across all mocks',
  'Across all mocks, the framework hands back the names of expected calls in exactly the order in which the expectations were recorded, each once. Taking one when none is left yields a reserved name and records exactly one error.',
  ['histories'],'every interleaving of recording and consuming, over any number of mocks and any names',
  'Tests use two functions and at most a few calls.',[EM],[('global queue',EM+':addCall'),('consumption',EM+':popCurrentCall')],
  [('global call queue','names of the pending expected calls',EM)],['name handed back'])
p('C11','Initialisation gives every test a clean slate and keeps settings',
  'After initialisation no error is recorded, no expected call is pending, and every registered header has been reset exactly once; the settings for call-order checking and for call stacks and the set of registered headers are unchanged. Settings read back exactly as last written.',
  ['histories','configurations'],'every state of the framework before initialisation',
  'Tests initialise once per test from a nearly clean state.',[EM],[('initialisation',EM+':init'),('settings',EM+':setCheckCallsOrder')],
  [('all global framework state','headers, queue, errors, settings',EM)],['state after initialisation'])
p('C12','A generated mock returns the configured value, or the zero value if unexpected',
  'For every mockable C function, a call that was expected returns exactly the value configured by the matching expectation, whatever the type of the result and whatever mismatches are reported. A call that was not expected records exactly one error, runs no comparator, writes no output and returns the all-zero value of its type.',
  ['inputs','programs'],'every function signature of the corpus (all scalar types, enums, structs, unions, pointers, typedefs, arrays, function pointers, variadic) and, per function, every argument and return value',
  'Tests cover a few dozen signatures with one or two sample values each.',[CT,LP],[('mock body template',CT),('type translation',LP)],
  (),['value returned by the mock','errors recorded'])
p('C13','A generated mock checks every parameter with its comparator',
  'On an expected call a generated C mock runs, for each parameter that has a comparator, exactly that comparator once with the received value, the value recorded by the matching expectation and the parameter\'s name, and none for the others. Each reported mismatch records exactly one error carrying the function, the call number and the comparator\'s message; no error is recorded when all agree.',
  ['inputs','programs'],'every signature of the corpus, every subset of parameters with comparators, every combination of comparator outcomes and every value',
  'Tests exercise mostly one mismatching parameter at a time for a few signatures.',[CT,LP],[('parameter check template',CT),('expectation recording template',CT)],
  (),['comparator invocations','errors recorded'])
p('C14','With order checking on, out-of-order calls are always reported, others never',
  'Every accepted call of a generated C mock consumes exactly one entry of the global call order, whether or not order checking is on, and every expectation adds exactly one. With order checking on, one error naming both functions is recorded if and only if the consumed entry is not this function, and outputs are then withheld; with it off none is recorded.',
  ['inputs','histories','configurations','programs'],'every signature of the corpus, both settings, any consumed name',
  'Tests swap two calls once with one fixed pair of functions.',[CT,EM],[('order check template',CT)],
  (),['errors recorded','global call order'])
p('C15','Output parameters receive exactly the configured data, others stay untouched',
  'When an output value is configured for a pointer parameter of a generated C mock, an expected call copies exactly the pointed-to object (or the configured number of bytes for untyped and incomplete types) to where that parameter points, and nothing else. Parameters without configured output, and pointers to constant data, are never written.',
  ['inputs','programs'],'every pointer-taking signature of the corpus, every subset of configured outputs and every value',
  'Tests write one int or struct per mock.',[CT,LP],[('output copy template',CT),('output eligibility',CT)],
  (),['memory reachable through pointer parameters'])
p('C16','Generated struct comparators report equal exactly when all fields are equal',
  'A generated comparator of a struct or union answers zero if and only if every field of the two objects is equal, including array elements, bit-fields, nested and anonymous members; pointers are compared by address. Its pointer-dereferencing variant gives the same answer for the pointed-to objects, and on a mismatch a message naming the differing field is left.',
  ['inputs','programs'],'every structured type of the corpus and every pair of objects of it',
  'Tests change one field of one sample object of a few structs.',[CT,LP],[('comparator templates',CT),('bit-field handling',CT)],
  (),['comparator result','message'])
p('C17','Every mock of a header is wired into its reset and verification',
  'Loading a generated C mock file registers exactly one entry for its header; resetting that entry resets every mock of the file and verifying it fails if and only if at least one of them does, while verifying all of them. Expectations for one function are never delivered to another, whatever the names and number of functions, and unloading resets and unregisters the entry.',
  ['programs','histories'],'every header of the corpus and every combination of verdicts of its mocks',
  'Tests check headers of one to three functions with one failing mock.',[CT],[('per-header reset/verify/registration templates',CT)],
  (),['registered callbacks'])
p('C18','Exactly the functions a header declares for others to implement are mocked',
  'Every function declared without a body directly in the given header is mocked exactly once, with its exact type, however often and in whatever form it is declared; inline, static, defined and no-return functions are not, nor are those of included files unless requested. Options restricting or excluding functions affect exactly the functions they name.',
  ['inputs','programs','configurations'],'every header of the corpus with every applicable option',
  'Tests use a fixed set of small headers, one option each.',[LP,CT,G+'src/ElementToMockContext.cpp'],[('declaration visitor',LP),('filters',LP)],
  (),['set and types of symbols defined by the generated file'])
p('C19','Generated C++ mocks honour expectations like C ones, plus instance checks',
  'For C++ free and member functions the n-th call since reset is answered with the n-th expectation: its return value, its parameter checks and its verdict are exact, and calls beyond the recorded expectations are rejected. A member expectation tied to an instance reports an error if and only if another instance makes the call, and the generic comparator reports a mismatch if and only if the values are not equal.',
  ['inputs','histories','programs'],'every state of a C++ mock queue, and every argument value of the C++ corpus',
  'Tests run a handful of C++ functions with fixed values.',[MH,CT,F+'include/easyMock.h'],[('C++ queue',MH+':MockedCppFunction'),('C++ templates',CT),('generic comparator',F+'include/easyMock.h:cmp')],
  (),['value returned','errors recorded'])
p('C20','Generated type definitions are layout- and value-identical to the originals',
  'When the generator re-creates types instead of including the original header, every struct, union, enum and typedef it emits has the same size, the same field names, offsets, widths and types, and every enumerator exists with the same value as in the original header.',
  ['inputs','programs'],'every type of the corpus: nested, anonymous, bit-field, array, recursive, negative, duplicated and wide enumerators',
  'Tests regenerate a few types and only check that the result compiles.',[CT,LP,G+'src/Enum.cpp',G+'src/ComposableType.cpp'],[('type emission',CT),('enumerator recording',G+'src/Enum.cpp:Enum::addEnumValue')],
  (),['emitted type definitions'])
p('C21','The command line is interpreted exactly as documented',
  'For every argument list, each documented option takes effect exactly as documented wherever it appears, every unrecognised argument is passed on to the header parser unchanged and in order, and a missing, repeated or incomplete mandatory option is rejected with an error. The interpretation of one argument never changes that of another, and no argument list makes the interpretation read outside the list.',
  ['inputs','configurations'],'every list of arguments built from options, values and arbitrary words',
  'Tests try single options and a few combinations.',[CL,MN],[('argument loop',CL),('validation',CL)],
  (),['parsed configuration','error message','exit status'])
p('C22','Type equality is an equivalence on all attributes and agrees with hashing',
  'In the generator\'s type model, two types are equal if and only if they agree on every attribute that affects the generated code; equality is reflexive, symmetric and transitive, and equal types have equal hashes. Copying or moving a description of a type yields one equal to the original.',
  ['inputs','programs'],'every pair and triple of types of the model',
  'Tests compare hand-picked pairs.',[G+'src/TypeItf.cpp',G+'src/EasyMock_CType.cpp',G+'src/ComposableType.cpp',G+'src/Enum.cpp'],[('equality and hash of the type classes',G+'src/TypeItf.cpp')],
  (),['equality result','hash value'])
p('C23','The generator reports failure whenever it did not produce the mocks',
  'The generator exits with a success status only when both generated files were completely written; a missing input, a header the parser rejects, an invalid option or an output that cannot be written gives a non-zero status.',
  ['fault_sequences','configurations'],'every outcome of the argument check, the parsing and the writing steps',
  'Tests check only the success status and a parse error.',[MN,G+'src/MainCodeGenerator.cpp',CT,G+'src/CodeGeneratorItf.cpp'],[('status propagation',MN)],
  (),['exit status'])
p('C24','The generator terminates without crashing on every header the parser accepts',
  'For every header that the embedded compiler front end accepts, the generator terminates without crashing and the code it produces compiles.',
  ['programs'],'every C header',
  'Tests use a fixed set of headers.',[LP,CT],[('declaration visitor',LP)],(),['process status'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,x['id']
