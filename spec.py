#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 spec.py rewrites both)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, level, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, technique=technique, level=level, note=note, na=na))

TVT = 'symbolic execution of the compiler and of the machine code it emits, compared with reference semantics by SMT (Z3)'
SXT = 'symbolic execution of the compiler (LLVM IR) on input text with symbolic parts, outputs decided by SMT (Z3)'
MC, TVL = 'model_checking', 'translation_validation'

prop('C01', 'Integer expressions compute what the C standard says, for every operand value',
 'For every operator (arithmetic, bitwise, shift, comparison, logical, conditional, cast, assignment, compound assignment, increment/decrement, pointer arithmetic) and every pair of integer operand types, the compiled code computes the value and applies the promotions and conversions C17 requires, for every operand value for which the behaviour is defined. Narrow parameters arrive with arbitrary bits above their width and callee-saved registers survive.',
 ['inputs', 'programs'], 'all operand values of every standard integer type, crossed with all operators and operand type pairs, plus randomly nested expressions',
 'Tests evaluate a few dozen constants; a wrong extension, signedness or width shows only for particular operand values and type pairs.',
 ['src/ir/ir.c', 'src/codegen/codegen.c', 'src/codegen/binary_operators.h', 'src/parser/expression.c', 'src/parser/expression_to_ir.c', 'src/arch/x64.c'],
 [('usual arithmetic conversions and promotions', 'src/parser/expression.c'), ('typed expressions lowered to IR operations', 'src/parser/expression_to_ir.c'), ('instruction selection per operator and size', 'src/codegen/codegen.c')],
 'return values and memory effects of the emitted code', TVT, TVL, 'every function of the generated programs, all argument values of 8..64 bits; signed overflow is compared as wrapping, division and shift preconditions assumed')
prop('C02', 'Constant expressions fold to the value run-time evaluation gives',
 'Wherever the language evaluates an expression at compile time (static initialisers, enumerators, case labels, array sizes, bit-field widths, static assertions), the value equals the one C semantics assign to the same expression, for all operand constants. Folding never aborts the compiler on an expression in a context that accepts non-constants.',
 ['inputs', 'programs'], 'all values of the literal operands (up to the digit bounds stated), all operators and type combinations of the literals',
 'Tests fold a handful of constants; folding is separate code from code generation, so agreement for all operands is not implied by any run-time test.',
 ['src/ir/operators.c', 'src/arch/x64.c', 'src/parser/expression.c', 'src/types.c'],
 [('operator folding by type', 'src/ir/operators.c'), ('constant casts', 'src/arch/x64.c')],
 'contents of emitted data, accepted/rejected static assertions', SXT, MC, 'literals of a bounded number of digits, one operator per template plus casts')
prop('C03', 'Integer and floating literals denote the right value and type',
 'Every integer literal (decimal, octal, hexadecimal, binary, with digit separators and any suffix) has the value and the type C assigns, and every floating literal has its correctly converted value and type.',
 ['inputs'], 'all digit strings up to the stated length, every base and suffix',
 'Tests contain a few literals; type selection changes at 2^31, 2^32, 2^63 boundaries that samples rarely straddle.',
 ['src/parser/expression.c', 'src/preprocessor/tokenizer.c', 'src/arch/x64.c'], [('literal parsing', 'src/parser/expression.c')],
 'values in emitted data and sizeof/_Generic results', SXT, MC, 'up to 20 symbolic digits; floating literals use the C library conversion of the host')
prop('C04', 'Character constants and string literals denote exactly the specified bytes',
 'Every character constant and string literal, with any prefix, escape sequence, universal character name, UTF-8 text and adjacent-literal concatenation, produces exactly the code units the standard specifies, with a terminating zero and the right element type and size.',
 ['inputs'], 'all characters and escape digits up to the stated length in each literal form',
 'Tests use a few literals; escape decoding, UTF-8 decoding and quoting in the output are byte-level computations over all inputs.',
 ['src/escape_sequence.c', 'src/utf8.c', 'src/preprocessor/string_concat.c', 'src/codegen/rodata.c', 'src/character_types.c'],
 [('escape decoding', 'src/escape_sequence.c'), ('UTF-8 decoding', 'src/utf8.c'), ('literal concatenation and emission', 'src/preprocessor/string_concat.c')],
 'bytes of the emitted object / assembly text', SXT, MC, 'up to 4 symbolic source bytes per literal')
prop('C05', 'Floating-point code follows IEEE 754 and C conversion rules',
 'Compiled float and double arithmetic, comparisons (including NaN and signed zero), conditions, and conversions between floating and integer types give the IEEE/C result for every operand value whose conversion is defined.',
 ['inputs', 'programs'], 'all bit patterns of float and double operands and all integer values',
 'Tests use small finite numbers; NaN, infinities, signed zeros, and 64-bit integer extremes are never sampled.',
 ['src/codegen/binary_operators.h', 'src/codegen/codegen.c', 'src/ir/ir.c'], [('SSE code for floating operators and conversions', 'src/codegen/codegen.c')],
 'return values and stored results of emitted code', TVT, TVL, 'add/sub/mul/div of the machine and the reference are the same uninterpreted IEEE operation; comparisons and conversions are decided in the FPA theory')
prop('C06', 'Control flow executes exactly the statements C prescribes',
 'For every input, compiled if/else, loops, switch (with any case values, ranges of types, fallthrough and default), goto, break, continue, short-circuit and conditional evaluation, and sequencing of side effects and calls perform the same observable writes in the same order as the C abstract machine.',
 ['inputs', 'programs'], 'all argument values of the generated control-flow programs, loops up to the stated trip counts',
 'Tests follow one path per construct; phi construction, scheduling and branch layout bugs appear only on particular path combinations.',
 ['src/parser/function_parser.c', 'src/parser/expression_to_ir.c', 'src/optimize/mem2reg.c', 'src/ir/global_code_motion.c', 'src/ir/dominator_tree.c', 'src/codegen/codegen.c'],
 [('statement lowering', 'src/parser/function_parser.c'), ('phi placement', 'src/optimize/mem2reg.c'), ('scheduling', 'src/ir/global_code_motion.c')],
 'return values and memory effects', TVT, TVL, 'handwritten and randomly generated structured and unstructured programs; loops bounded by masking the counters')
prop('C07', 'Aggregates and bit-fields have ABI layout and exact access semantics',
 'Sizes, alignments and member offsets match the platform ABI; reading or writing any member, element or bit-field (through objects, pointers, copies, returns) affects exactly its bits for every stored value and every prior content of the object.',
 ['inputs', 'programs'], 'all contents of the objects and all stored values, over generated aggregate types',
 'Tests store a few values in zeroed objects; clobbered neighbouring bits or bytes need particular prior contents.',
 ['src/types.c', 'src/parser/expression_to_ir.c', 'src/codegen/codegen.c', 'src/parser/declaration.c', 'src/abi/sysv.c'],
 [('struct layout', 'src/types.c'), ('bit-field access', 'src/ir/ir.c')],
 'object bytes, sizeof/offsetof values', TVT, TVL, 'generated types up to 12 members / 64 bytes; layout reference is the clang x86-64 ABI')
prop('C08', 'Calls interoperate with the System V x86-64 ABI in both directions',
 'For every function type within bounds, code compiled here and code compiled by a conforming compiler can call each other: every argument byte, return value (integers, floating, structs and unions by value, variadic arguments) arrives unchanged, and callee-saved registers and stack alignment are respected.',
 ['inputs', 'programs'], 'all argument values over generated signatures up to the stated size',
 'Tests link only code from this compiler, so a self-consistent but wrong convention passes; the classification depends on the aggregate layout.',
 ['src/abi/sysv.c', 'src/arch/calling.c', 'src/codegen/codegen.c'], [('argument classification', 'src/arch/calling.c'), ('register and stack assignment, va_arg', 'src/abi/sysv.c')],
 'values received by callee and caller', 'symbolic execution of emitted code linked with reference-compiled machine code, decided by SMT', TVL, 'signatures of up to 12 parameters, aggregates to 40 bytes')
prop('C09', 'Calls interoperate with the Microsoft x64 ABI in both directions',
 'With the Microsoft ABI selected, every argument byte, return value and variadic argument passes unchanged between code compiled here and code compiled by a conforming compiler for that ABI, long has 32 bits, and the registers that ABI preserves are preserved.',
 ['inputs', 'programs'], 'all argument values over generated signatures up to the stated size',
 'The tests reach this ABI only through a few programs under emulation, always with both sides from this compiler.',
 ['src/abi/microsoft.c', 'src/linker/coff.c', 'src/codegen/codegen.c'], [('Microsoft ABI lowering', 'src/abi/microsoft.c'), ('COFF writer', 'src/linker/coff.c')],
 'values received by callee and caller', 'symbolic execution of emitted code linked with reference-compiled machine code, decided by SMT', TVL, 'signatures of up to 8 parameters, aggregates to 24 bytes')
prop('C10', 'Initialisers give every object exactly its specified contents',
 'For static and automatic objects, an initialiser (nested braces, brace elision, designators, overriding, strings, unions, bit-fields, compound literals, incomplete array types) sets each element to the specified value and every other byte of a member to zero; static and automatic initialisation of the same type agree.',
 ['inputs', 'programs'], 'all values of the initialiser expressions and all prior stack contents, over generated types and initialiser shapes',
 'Tests compare a few initialised objects; zero filling of automatic objects is invisible unless the stack held other data.',
 ['src/parser/declaration.c', 'src/parser/expression_to_ir.c', 'src/codegen/rodata.c', 'src/codegen/codegen.c'], [('initialiser parsing', 'src/parser/declaration.c'), ('static data emission', 'src/codegen/rodata.c')],
 'object bytes', TVT, TVL, 'generated aggregates up to 64 bytes; run-time initialisers symbolic, stack prefilled with a non-zero pattern')
prop('C11', 'The built-in assembler and the textual assembly agree',
 'For every program, assembling the textual output with a standard assembler yields an object that behaves exactly like the object written directly: the same instruction is encoded for every operand, immediate and displacement value, and the same data and symbols are emitted.',
 ['inputs', 'programs'], 'every instruction form the code generator emits, all immediates and displacements of the given widths',
 'The textual and the binary path are separate implementations; a wrong encoding only shows for particular registers, immediate sizes or displacements.',
 ['src/assembler/encode.c', 'src/assembler/assembler.c', 'src/assembler/instructions.h', 'src/codegen/rodata.c'], [('instruction encoder', 'src/assembler/encode.c'), ('operand and directive printing', 'src/assembler/assembler.c')],
 'object bytes against GNU as output', 'symbolic execution of the encoder with symbolic operands, decoded and compared by SMT', MC, 'all encodings in the instruction table, register numbers and immediates symbolic')
prop('C12', 'Object files are well-formed and linking resolves every reference correctly',
 'Every emitted object file is a well-formed ELF relocatable file whose sections, symbols (binding, definedness) and relocations describe the program; linking several of them, with a standard linker or the built-in one, resolves every reference to the right definition and address.',
 ['inputs', 'programs'], 'symbol names, sizes, offsets and addends over generated multi-file programs',
 'Tests link a few small files with one linker, which tolerates many malformed fields.',
 ['src/linker/elf.c', 'src/linker/object.c', 'src/linker/linker.c', 'src/assembler/assembler.c'], [('ELF writer and reader', 'src/linker/elf.c'), ('linking', 'src/linker/linker.c')],
 'object and executable file bytes', SXT, MC, 'objects of up to 3 files, symbolic names and contents')
prop('C13', 'Macro expansion yields the token sequence the standard specifies',
 'Preprocessing any sequence of macro definitions and uses (object-like, function-like, variadic, nested, recursive, with stringising, pasting, empty and missing arguments, redefinition and undefinition) yields exactly the token sequence the standard algorithm gives.',
 ['inputs', 'programs'], 'all macro bodies and invocations assembled from the stated token alphabets and lengths',
 'Tests contain a few tens of macros; rescanning, argument prescan and paste interactions are combinatorial.',
 ['src/preprocessor/macro_expander.c', 'src/preprocessor/directives.c', 'src/preprocessor/tokenizer.c'], [('expansion', 'src/preprocessor/macro_expander.c')],
 'output of the preprocess-only mode', SXT, MC, 'token choices are symbolic indices; bodies up to 4 tokens, arguments up to 3')
prop('C14', 'Conditional inclusion takes exactly the right branch',
 'For every controlling expression and every nesting of conditional directives, exactly the groups the standard selects are processed: expressions are evaluated in the widest integer types with the right signedness, precedence and short circuit, skipped groups have no effect, and ill-formed conditionals are diagnosed.',
 ['inputs', 'programs'], 'all operand values within the digit bound, all operators, all directive nestings up to the stated depth',
 'Tests hold a handful of conditionals; the evaluator is a separate interpreter from the constant folder.',
 ['src/preprocessor/directives.c', 'src/preprocessor/preprocessor.c'], [('controlling expressions', 'src/preprocessor/directives.c')],
 'which marker tokens survive preprocessing', SXT, MC, 'operators with symbolic literal operands; nesting up to 3 levels')
prop('C15', 'Arbitrary input never makes the compiler misbehave',
 'For any source text the compiler terminates normally: it either succeeds or reports an error with a non-zero status, without reading or writing outside its buffers, without arithmetic faults and without hanging.',
 ['inputs'], 'all byte strings up to the stated length in each lexical context',
 'Tests feed mostly valid programs; memory errors on malformed input need specific bytes.',
 ['src/preprocessor/tokenizer.c', 'src/preprocessor/directives.c', 'src/escape_sequence.c', 'src/utf8.c', 'src/character_types.c', 'src/parser/expression.c'], [('tokenizer', 'src/preprocessor/tokenizer.c')],
 'exit status, memory safety', SXT, MC, 'short symbolic byte strings embedded in fixed contexts')
prop('C16', 'Tokens, comments, line splices and whitespace are recognised exactly',
 'Source text is divided into tokens by maximal munch, with comments, line splices, newlines (LF and CRLF), digraphs and white space having no other effect than separating tokens; equivalent spellings of the same token sequence compile to the same object.',
 ['inputs'], 'all byte strings of the stated length around fixed context tokens',
 'Tests use conventional formatting; splices inside tokens, comment edge cases and adjacent operators are combinatorial.',
 ['src/preprocessor/tokenizer.c', 'src/preprocessor/input.c', 'src/character_types.c'], [('tokenizer', 'src/preprocessor/tokenizer.c'), ('phase 1-3 translation', 'src/preprocessor/input.c')],
 'tokens printed by the preprocess-only mode', SXT, MC, 'up to 5 symbolic bytes from the punctuation and white-space alphabet')
prop('C17', 'Command-line options mean what the documentation says',
 'Macro definitions, undefinitions, include paths, output names, and dependency files given on the command line have exactly the effect of the corresponding source text, and preprocess-only output compiles to the same object as the original source.',
 ['inputs', 'configurations'], 'all option argument texts of the stated length, option combinations',
 'The tests use one fixed command line per mode.',
 ['src/arguments.c', 'src/main.c', 'src/preprocessor/preprocessor.c'], [('argument parsing', 'src/arguments.c'), ('driver', 'src/main.c')],
 'output files and their names', SXT, MC, 'symbolic option values of up to 4 characters')
prop('C18', 'Compilation is deterministic and independent of uninitialised memory',
 'The bytes written depend only on the source text and options: no uninitialised memory, address or iteration order influences an emitted object or assembly text.',
 ['programs', 'configurations'], 'all contents of uninitialised heap and stack memory during compilation of the corpus',
 'Two equal runs in one process image prove nothing: stale memory happens to be equal.',
 ['src/ir/ir.c', 'src/codegen/codegen.c', 'src/linker/elf.c', 'src/common.c'], [('output writing', 'src/linker/elf.c')],
 'output bytes', 'symbolic execution with uninitialised memory as fresh symbolic values, output bytes decided by SMT', MC, 'corpus of programs covering the language; uninitialised memory arbitrary')
prop('C19', 'Variable-length arrays and dynamic stack use are correct',
 'Variable-length arrays have the evaluated size, correct element addressing and sizeof, do not overlap other live objects, and leave the stack balanced in loops, nested blocks and calls.',
 ['inputs', 'programs'], 'all array lengths within bounds and all element values',
 'Tests use one or two sizes.',
 ['src/parser/declaration.c', 'src/parser/expression_to_ir.c', 'src/codegen/codegen.c'], [('VLA allocation', 'src/codegen/codegen.c')],
 'memory effects, stack pointer', TVT, TVL, 'lengths up to 8 elements')
prop('C20', 'Declarations, scope, linkage and storage duration resolve as C prescribes',
 'Identifiers resolve to the innermost visible declaration in the right name space; static, extern, tentative and block-scope declarations denote one object per the linkage rules; static objects keep their values across calls; declarators of any nesting give the right type.',
 ['inputs', 'programs'], 'all argument values of generated scoping and declarator programs, call histories up to the stated length',
 'Tests cover a few declarations; shadowing, linkage merges and declarator nesting are combinatorial.',
 ['src/parser/declaration.c', 'src/parser/symbols.c', 'src/types.c'], [('symbol tables', 'src/parser/symbols.c'), ('declarators', 'src/parser/declaration.c')],
 'behaviour of emitted code, symbol tables', TVT, TVL, 'generated programs, sequences of up to 4 calls')
prop('C21', 'Every expression has the type C assigns to it',
 'The type of every expression, as observed by sizeof, _Generic, _Alignof and redeclaration, is the one the standard assigns, including integer promotion, usual conversions, literals, pointer and array decay, const qualifiers and conditional expressions.',
 ['programs', 'inputs'], 'all pairs of operand types under every operator, chosen symbolically',
 'Tests check a few sizeof and _Generic expressions.',
 ['src/parser/expression.c', 'src/types.c'], [('type evaluation', 'src/parser/expression.c')],
 'values of sizeof and _Generic in emitted data', SXT, MC, 'operand types and operators selected symbolically from full tables')
prop('C22', 'Programs violating the enforced constraints are rejected',
 'A program violating a syntax rule or one of the constraints the compiler enforces (assignment to const or non-lvalues, wrong argument counts or types, undeclared identifiers, failed static assertions, address of register objects, duplicate definitions and labels, invalid types of operands and members, #error) is diagnosed with a non-zero status and no success, whatever the surrounding valid code.',
 ['programs', 'inputs'], 'all mutations of valid programs from the stated edit set, chosen symbolically',
 'Eleven fixed programs are tested.',
 ['src/parser/expression.c', 'src/parser/function_parser.c', 'src/parser/declaration.c'], [('constraint checks', 'src/parser/expression.c')],
 'exit status', SXT, MC, 'violations chosen symbolically from a table, in several contexts')

NA_PENDING = 'check under construction'
def main():
    checks, na = [], []
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
              'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': [p['observe']]}}) + '\n')
            if p['na'] or not os.path.exists(V + '/checks/%s.py' % p['id'].lower()):
                na.append({'property': p['id'], 'reason': p['na'] or NA_PENDING})
            else:
                checks.append({'property': p['id'], 'quick_cmd': 'VERIF_TIER=quick python3 run.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                  'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    json.dump({'version': 1, 'setup_cmd': 'python3 run.py setup', 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. Every check symbolically executes the real compiler, built from /repo on each run; no hooks are needed in /repo.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
main()
