import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[dict(name=m,where=", ".join(files)) for m in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
TLV="src/emv/tlv_parsing/mod.rs"; BER="src/emv/tlv_parsing/ber_tlv.rs"; ING="src/emv/tlv_parsing/ingenico_tlv.rs"; AUTO="src/emv/tlv_parsing/auto_tlv.rs"; PET="src/emv/tlv_parsing/process_emv_tag.rs"
OUT="the process's stdout, stderr and exit status"

p("C01","No input can crash or hang the tool",
 "Whatever arguments, environment variables and configuration file the tool is started with, it ends by itself with an ordinary exit status: it never panics, aborts, is killed by a signal, exhausts the stack or memory, or keeps running without end. This holds for malformed, truncated, huge and extremely deeply nested data, in every input format and option, and for invalid configuration.",
 ["inputs","configurations"],"every argument vector the operating system can deliver (including non-UTF-8 and 128 KiB arguments), every environment and every configuration file, with checked and unchecked arithmetic builds",
 "The unit tests call individual parsers on a few dozen short values; they never run the binary, never reach the display code, and no sample settles absence of panics, overflow or stack exhaustion over all inputs.",
 ["src/main.rs",BER,ING,"src/util.rs",TLV],["index bookkeeping of both TLV parsers","recursive descent, display, sort and drop of nested blocks","fixed-width indentation and bit-offset arithmetic","configuration extraction in main"],OUT)
p("C02","A run reports either a full breakdown or an error, never a mix",
 "If any part of a supplied value cannot be accepted, nothing at all is written to standard output and exactly one explanation appears on standard error. If it is accepted, the full breakdown is on standard output and standard error is empty; in particular one unacceptable tag anywhere in a TLV block, at any depth and in any position, suppresses the whole block, including the line announcing the detected format.",
 ["inputs"],"every value for every option, and every position and depth of an unacceptable tag within a block of otherwise good tags",
 "Tests check the returned error of single parsers, never what reached stdout before the error, nor the position of the bad tag in a larger block.",
 ["src/main.rs",TLV,PET],["processing of the whole block completes before anything is displayed","format header is printed only after processing succeeded","error propagation from nested tags"],OUT)
p("C03","The same request always gives the same output",
 "Running the same command with the same configuration gives byte-for-byte the same standard output, standard error and exit status every time, apart from how help and usage messages are wrapped. It does not depend on locale, time zone, home directory, terminal width, standard input, unrelated environment variables, the current directory, or on other instances running at the same time.",
 ["inputs","configurations","schedules"],"every operation, repeated and concurrent, under arbitrary unrelated environment",
 "Unit tests run each function once in one environment and never compare two executions of the program.",
 ["src/main.rs","src/config/mod.rs",TLV],["pure computation from arguments and configuration to output","stable sort of parsed tags"],OUT)
p("C04","Inspecting card data has no side effects",
 "Running any operation leaves no trace of the card data: no file or directory is created, changed or removed, no network socket is opened, no other program is started and no signal is sent. Standard input is never consumed.",
 ["inputs","configurations"],"every operation, successful or failing, in every directory and configuration",
 "Tests only look at return values; they cannot observe system calls of the whole program.",
 ["src/main.rs","src/config/mod.rs","Cargo.toml"],["the program only reads its configuration and writes to stdout and stderr"],"system calls of the process, and the state of its directory and standard input")
p("C05","Output that could not be delivered is never reported as success",
 "When writing the breakdown, the error, or the help shown because no operation is given fails at any point (full disk, closed pipe, size limit), what was delivered is an exact prefix of the complete output, and the exit status is a failure whenever part of the text is missing. A write that is interrupted or only partly accepted loses and repeats nothing.",
 ["fault_sequences","crash_points"],"every byte position at which the output channel can fail or accept only part of a write, for every operation",
 "No test ever makes a write fail; the display code is not executed by the tests at all.",
 ["src/main.rs","src/util.rs"],["every part of the breakdown is written through the checked standard output macros"],"bytes that reached the output channel, and the exit status")
p("C06","Optimised and checked builds behave identically",
 "For every request, the optimised release build and the development build with overflow checks and debug assertions produce the same standard output, standard error and exit status. No result relies on wrapped arithmetic or on checks that exist in only one of the builds.",
 ["inputs","configurations","programs"],"every operation and input, over the two build configurations of the crate",
 "The test suite runs in one build profile only, and never compares two.",
 ["src/macros.rs","src/emv/bitflag_values.rs",BER,"src/util.rs"],["narrow integer arithmetic for offsets, lengths and indentation"],OUT)

p("C07","Memory is never misused",
 "Whatever the request, no execution of the program or of the libraries it uses reads or writes memory outside of a live object, uses memory that was not initialised or already freed, makes a value its type does not have (an invalid enum, a text that is not UTF-8), or has undefined behaviour in any other way, in the development and in the release build. For a request made of valid text, everything printed is valid text.",
 ["inputs","configurations","programs"],"every operation, input and setting, in both builds",
 "Tests only see results; a read past the end of a value usually changes nothing that they look at.",
 ["src/util.rs","src/macros.rs",BER,TLV,"src/emv/authorisation_response_code.rs"],["data is sliced, copied and converted through safe operations with checked bounds"],"memory accesses of the process, as seen by AddressSanitizer, memcheck and Miri")

p("C08","Effort stays in proportion to the data",
 "The processor time and the memory a request takes grow in proportion to the size of the data and of what is printed, whatever the data is like: its nesting, the number, order and repetition of tags, masked or damaged parts, and announced lengths that exceed what is there. Twice as much data of the same kind takes about twice as long, and a few bytes never make the program reserve a large amount of memory.",
 ["inputs"],"every shape of data, in every size",
 "Tests use inputs of a few bytes, where no growth can be seen, and look at results only.",
 [BER,TLV,"src/util.rs","src/emv/cvm_list.rs","src/emv/tlv_parsing/ingenico_tlv.rs"],["the data is gone through once per level","room is only made for data that is there"],"instructions executed and memory in use")

p("C10","Well-formed BER-TLV data is decoded exactly",
 "Any sequence of well-formed BER-TLV objects is shown as exactly those objects: every tag with all its bytes, its exact value length and its nesting under its constructed parent, in order, none missing, merged, split or invented. This holds for tags of any number of bytes, for every legal short or long length encoding (including redundant leading zeroes in up to four length bytes), for any value size and for up to 250 levels of nesting.",
 ["inputs"],"every forest of tags, every legal length encoding of each, every value size that fits on a command line",
 "The tests decode about twenty fixed byte strings; they cannot cover all tag widths, length forms, sizes and tree shapes and their combinations.",
 [BER,TLV],["tag continuation bits","short and long length forms","constructed bit and recursive descent"],"tag lines of the displayed breakdown")
p("C11","Malformed BER-TLV data is refused",
 "BER-TLV data in which some top-level object is incomplete or not allowed - a tag or length cut short, fewer value bytes than the length says, an indefinite length, or more than four length bytes - is refused with an error and no breakdown is shown. No amount of well-formed data before or after it makes a malformed object acceptable.",
 ["inputs"],"every well-formed block, every truncation point within an object and every illegal length encoding",
 "A handful of fixed malformed strings are tested; truncation at every byte and every excess length is a universally quantified claim.",
 [BER],["bounds checks after the tag, the length and the value"],OUT)
p("C12","Constructed values that are not TLV are still shown in full",
 "When the value of a constructed tag is not itself well-formed TLV, or lies deeper than the supported nesting, the tag is shown with its complete raw value and no child tags, and without any error. Its siblings and ancestors are shown exactly as if its value had been well-formed.",
 ["inputs"],"every constructed tag value, at every position and depth of a block",
 "One test covers a single malformed constructed value at top level.",
 [BER,TLV],["child parse failures fall back to an empty child block"],"the displayed tree")
p("C13","A tag is explained the same way wherever it appears",
 "The breakdown of a tag depends only on the tag and its value: apart from indentation it is the same at the top level, next to any neighbours, or nested at any depth inside constructed tags. Unsorted, the breakdown of two blocks joined together is the breakdown of the first, a blank line, and the breakdown of the second.",
 ["inputs"],"every pair of blocks, every tag and value, every nesting context",
 "Tests never compare the output of two related inputs and never execute the display code.",
 [TLV,PET,BER],["per-tag processing without context","indentation passed down the tree"],"the displayed tree")
p("C14","Well-formed Ingenico TLV data is decoded exactly",
 "Any sequence of well-formed Ingenico fields is shown as exactly its EMV fields: each tag (without leading zero bytes), its value and its length, in order, whether written as hex or as ASCII text, in either letter case, with any single separator character and with or without a trailing separator. Fields of any other type are skipped without affecting their neighbours, and the value of a constructed tag is decoded as BER-TLV.",
 ["inputs"],"every list of fields, field type, data format, letter case, length digits and separator",
 "About twenty fixed strings are tested; combinations of types, formats, separators, sizes and leading zeroes are not.",
 [ING],["field scanning by colon and length","leading zero trimming of tag and length","type filter"],"the displayed tree")
p("C15","Malformed Ingenico TLV data is refused",
 "Ingenico data in which any field - whatever its type and position - is incomplete, has an identifier, length or hex value that is not whole hex bytes, has an unknown data format, declares more data than follows, or contains non-ASCII text is refused with an error and no breakdown is shown. No digit the user supplied is silently dropped.",
 ["inputs"],"every well-formed field list and every way of damaging one field of it",
 "Fixed examples of a few kinds of damage are tested at one position each.",
 [ING,"src/util.rs"],["bounds checks on each field","strict hex decoding"],OUT)
p("C16","Automatic format detection agrees with the explicit formats",
 "Automatic parsing shows the name of the detected format followed by precisely the breakdown that the option for that format gives for the same input and settings, or refuses a value with the same explanation as that option. Input that is valid Ingenico data is reported as Ingenico, input that is only valid BER-TLV as BER-TLV, and anything else, including input without a single byte of hex data, is refused.",
 ["inputs","configurations"],"every input string, valid in either, both or neither format, with every masking and sorting setting",
 "Five fixed inputs are tested, without masking, sorting or display.",
 [AUTO,"src/main.rs"],["Ingenico is tried before BER-TLV","shared masking and sorting settings"],OUT)
p("C17","The same tags give the same breakdown in every format",
 "A list of tags and values is explained identically whether it is supplied as BER-TLV, as Ingenico fields in hex, as Ingenico fields in ASCII (where the value is printable text), or through automatic detection. Only the line naming the detected format may differ.",
 ["inputs"],"every list of tags and values expressible in more than one format",
 "Each parser is tested in isolation on different data; no test compares formats.",
 [BER,ING,AUTO,TLV],["both parsers produce the same intermediate tree"],"stdout of equivalent commands")
p("C18","Masked values are recognised exactly and never interpreted",
 "A tag is shown as masked, with unknown length and with no value, children or interpretation, exactly when its value, as written in the data, consists of two or more repetitions of one and the same configured masking character; it keeps its usual name. Any other value, including a single masking character or a mix of different ones, is shown and interpreted normally.",
 ["inputs","configurations"],"every tag, value, set of masking characters (from the command line or configuration), format and nesting level",
 "Six assertions on fixed strings with the default character; no test varies the masking characters or checks what is displayed.",
 [TLV,BER,ING],["uniform comparison of the value with each configured masking character","masked data bypasses parsing and descent"],"tag lines and body of the displayed tree")
p("C19","Sorting only reorders tags, and does so stably at every level",
 "With sorting on (the default), every level of the tree is ordered by the bytes of the tag, a tag that is a prefix of another coming first, and equal tags stay in input order. With sorting off the input order is kept everywhere; in both cases exactly the same tags, values and parent-child relations are shown.",
 ["inputs","configurations"],"every tree with arbitrary and repeated tags, in every format, with every way of switching sorting on or off",
 "One test sorts three top-level tags; stability, nesting and repeated tags are not covered.",
 [TLV,"src/main.rs","src/config/mod.rs"],["recursive stable sort by tag bytes"],"order of the displayed tree")
p("C20","Raw values are shown without loss",
 "For every unmasked tag with a non-empty value, the raw section shows exactly the bytes supplied, sixteen per line in order, with a text column in which each printable ASCII character stands for itself and every other byte for a dot, and the byte count in the tag line is the number of those bytes. A tag with an empty value shows zero bytes and no raw section.",
 ["inputs"],"every tag, every value of every length and every nesting level",
 "The functions that print raw values are excluded from the tests and from coverage.",
 ["src/util.rs",TLV],["hex and ASCII dump in lines of sixteen bytes"],"raw sections of the displayed tree")
p("C21","Hex input is read independently of its punctuation and letter case",
 "For every option that takes hex data, upper and lower case digits are equivalent and any characters that are not hex digits may surround or separate the digits without changing the result. When the digits do not form whole bytes, the input is refused rather than truncated.",
 ["inputs"],"every hex-taking option, every value, every placement of non-hex characters and every letter case",
 "Six fixed strings are tested on the conversion function; the options themselves are not.",
 ["src/util.rs","src/main.rs"],["filtering of hex digits"],OUT)

p("C22","Indentation and spacing show what belongs to what",
 "Every line is indented by exactly as many steps as the tag it belongs to, at any depth: a tag's own line and its headings (raw, parsed, child tags, masked) by one step per enclosing constructed tag, its raw bytes and its interpretation by one step more, parts of an interpretation (rules of a verification method list, parts of issuer application data) by another one, and its child tags by one step more than itself. Tags that follow one another are separated by exactly one blank line, blank lines are nowhere else within a tag, and the last line is ended. The interpretation of a value on its own starts without indentation.",
 ["inputs","configurations"],"every forest of tags at every depth, and every operation on its own",
 "The display code is not executed by the tests at all.",
 ["src/util.rs",TLV,"src/emv/ccd/iad.rs","src/emv/cvm_list.rs","src/emv/bitflag_values.rs"],["indentation is passed down through the breakdowns, one more step for each level"],"leading tabs and blank lines of the displayed breakdown")

p("C30","Every tag is named, classed and typed according to the EMV data dictionary",
 "Every tag of the EMV data dictionary the tool knows is always reported under its own standard name and every other tag as unknown, with the same answer from tag identification and from every TLV format. Tag identification reports the class and the primitive or constructed type that the first tag byte encodes, for every tag of one or more bytes.",
 ["inputs"],"every tag of one, two or more bytes",
 "The name table is excluded from the tests and coverage; only the metadata of eight first bytes is tested.",
 [PET,"src/emv/tag_basic_info.rs",BER],["name lookup by all tag bytes","class and type bits of the first tag byte"],"identification output and tag lines")
p("C40","Every set status bit is explained, and nothing else is",
 "For terminal verification results, action codes, transaction status, terminal capabilities and additional terminal capabilities, the breakdown lists exactly one line for each defined bit that is set, with that bit's own EMV meaning, and none for clear or reserved bits. The binary line shows the value's bits with reserved bits cleared, and the issuer action codes state whether they cause a denial, an online authorisation or a rejection when offline.",
 ["inputs"],"every value of the right size for each kind of status field, alone or within TLV data",
 "Tests count lines per bit generically but ignore the texts, and never render a breakdown; a wrong meaning, a swapped pair of texts or an interaction between bits passes.",
 ["src/emv/tvr.rs","src/emv/tsi.rs","src/emv/terminal_capabilities.rs","src/emv/additional_terminal_capabilities.rs","src/emv/iac/mod.rs","src/macros.rs","src/emv/bitflag_values.rs"],["bit to meaning tables","masking of unused bits"],"breakdown lines")
p("C41","CCD issuer application data is recognised and explained exactly",
 "Issuer application data is broken down exactly when it follows the Common Core Definitions layout (32 bytes, both length bytes, format code A, a known cryptogram version); every field, flag, counter and number in it is then shown with its own value. Within TLV data any other value is shown as not CCD-compliant with its raw bytes, and the stand-alone option refuses it; card verification results alone are explained identically.",
 ["inputs"],"every issuer application data value and every five-byte card verification results value",
 "One compliant value and three non-compliant ones are tested; field extraction over all values, the boundaries of compliance and the display are not.",
 ["src/emv/ccd/iad.rs","src/emv/ccd/cvr.rs","src/emv/ccd/cci.rs",PET],["layout and length byte checks","bit-field extraction by mask and shift"],"breakdown lines")
p("C42","Bit breakdowns point at the right bits",
 "In every bit-level breakdown, each explanation hangs from the column of the bit it explains, connector lines run unbroken from the binary line down to it, and values several bits wide carry a header bracket spanning exactly their bits. The lines are ordered from the rightmost bit to the leftmost, at any indentation.",
 ["inputs"],"every combination of set bits and multi-bit values of every kind of bit field, stand-alone and nested",
 "The rendering code is excluded from the tests and from coverage.",
 ["src/emv/bitflag_values.rs","src/macros.rs"],["arm offsets and widths","leading space and byte gaps"],"columns of the breakdown text")
p("C43","Severity colours mark exactly the warnings and errors",
 "With colour on, explanations of bits that indicate an error are red, those that indicate a warning are yellow and all others have no colour, for terminal verification results, card verification results and every other status field, stand-alone or nested. Issuer action codes, which are settings and not results, show no severity colours, and with colour off there is none at all.",
 ["inputs","configurations"],"every status value, context and colour setting",
 "No test executes the display code or looks at colours.",
 ["src/emv/bitflag_values.rs","src/emv/tvr.rs","src/emv/ccd/cvr.rs","src/emv/iac/mod.rs"],["severity per bit","severity switch passed down the tree"],"colour of each character of stdout")
p("C44","CVM lists are explained rule by rule",
 "A cardholder verification method list of eight or more bytes and an even length is shown as exactly its rules, numbered in order, each with the method, the condition and the consequence of failure that its two bytes encode; unknown codes are called unknown and do not affect other rules. The X and Y amounts are shown, with their exact decimal values padded to a common width of at least three digits, exactly when one is non-zero or a rule refers to one.",
 ["inputs"],"every CVM list value",
 "Five fixed lists are tested, without display.",
 ["src/emv/cvm_list.rs","src/emv/cv_rule/mod.rs","src/emv/cv_rule/cv_method.rs","src/emv/cv_rule/cvm_condition.rs"],["rule decoding by bit masks","amount display condition and padding"],"breakdown lines")
p("C45","CVM results are explained exactly",
 "For every three-byte cardholder verification method result whose outcome code is defined, the breakdown names the method, the condition, whether the next rule applies on failure, and the outcome that the bytes encode, and its binary line shows the bytes as supplied apart from the reserved bit. Any other outcome code is refused.",
 ["inputs"],"all 2^24 CVM results values",
 "Two fixed values are tested, without display.",
 ["src/emv/cvm_results.rs","src/emv/cv_rule/mod.rs","src/emv/cv_rule/cv_method.rs","src/emv/cv_rule/cvm_condition.rs"],["rule decoding by bit masks","outcome decoding"],"breakdown lines")
p("C46","Service codes are explained digit by digit",
 "For every service code from 000 to 999 the breakdown shows the three digits and, for each, the interchange, technology, authorisation, services and PIN meaning that ISO/IEC 7813 gives it, whether supplied as a number or within TLV data as two bytes of digits. Anything that is not a number from 0 to 999 is refused.",
 ["inputs"],"all 1000 service codes in both forms, and every other input",
 "Only that all codes parse and three full results are tested; the texts and the display are not.",
 ["src/non_emv/service_code.rs","src/util.rs"],["digit extraction and per-digit meaning tables"],"breakdown lines")
p("C47","Coded values are translated exactly, and unknown codes are never guessed",
 "Authorisation response codes, transaction types, POS entry modes and terminal types are translated to the meaning of exactly that code. An unknown transaction type or textual authorisation response code is labelled as unrecognised and shown raw without affecting other tags; an unknown POS entry mode or terminal type, and a response code that is not text, is refused.",
 ["inputs"],"every possible one- or two-byte code value, in every format and nesting",
 "One code per table is tested, and never its text.",
 ["src/emv/authorisation_response_code.rs","src/emv/transaction_type.rs","src/emv/pos_entry_mode.rs","src/emv/terminal_type.rs",PET],["code tables","treatment of unrecognised codes"],"breakdown lines and tag names")
p("C48","Values of the wrong size are refused with the right reason",
 "A value with the wrong number of bytes for a field of fixed or minimum size is never interpreted: the request is refused with an error that states the expected and the actual number of bytes, stand-alone and within TLV data in any format and at any depth. A cardholder verification method list with a dangling byte is refused as not divisible into its parts.",
 ["inputs"],"every field with a size requirement and every wrong size",
 "Each type is tested with a single wrong size, and the message is not looked at.",
 ["src/macros.rs","src/error.rs","src/emv/cvm_list.rs","src/emv/cvm_results.rs",PET],["length checks before decoding","error message"],OUT)
p("C49","A value is explained the same alone and inside TLV data",
 "For every value that has its own option, the breakdown shown by that option is identical, apart from indentation, to the interpretation shown under the corresponding tag in TLV data of any format. A value refused by one is refused by the other, except where the tag is explicitly labelled as unrecognised or not compliant.",
 ["inputs"],"every value of every field that has both an option and a tag",
 "Tests never compare the two paths through the program and never render output.",
 ["src/main.rs",PET,TLV],["both paths use the same interpretation of the value"],"stdout of related commands")

p("C50","Settings take effect in the documented order of precedence",
 "For colour, masking characters and sorting, a setting given on the command line overrides the environment, which overrides the configuration file, which overrides the built-in default, independently for each setting. Within the file, the selected profile overrides the default profile and global values override both; the file is found in the current or a parent directory or where the environment says.",
 ["configurations"],"every combination of sources for every setting, with every profile selection and file location",
 "The configuration code has no tests beyond conversions of the colour names.",
 ["src/config/mod.rs","src/main.rs","src/config/colour_choice.rs"],["layered configuration providers","command-line values are applied only when given"],"colour, masking and order of stdout")
p("C51","Invalid settings are refused, never ignored",
 "A value that is not valid for a setting - on the command line, in the environment or in the selected part of the configuration file - or a configuration file that cannot be understood makes the request fail with an explanation on standard error, a failing exit status and nothing on standard output. A value that is overridden by a more important source has no effect.",
 ["configurations"],"every setting, source and invalid value",
 "No test loads a configuration.",
 ["src/config/mod.rs","src/main.rs","src/cli.rs"],["extraction of each setting","command-line value parsers"],OUT)
p("C52","Colour never changes the text",
 "With colour switched on, removing the colour codes leaves byte for byte the output with colour switched off, every colour is switched off again before the end of its part, and nothing but colour codes is added. Without an explicit choice, colour codes appear only when standard output is a terminal that supports them; errors never contain any.",
 ["inputs","configurations"],"every operation and value, every colour setting, with standard output a terminal, a pipe or a file",
 "No test looks at the output.",
 ["src/main.rs","src/config/colour_choice.rs","src/output_colours.rs",TLV],["each coloured part is set and reset","automatic choice depends on the terminal"],"stdout bytes")
p("C53","Every spelling of an option means the same",
 "For each option, the documented long name, the short name and all alternative names, written separately or joined with an equals sign, give exactly the same result. The order of the options does not matter.",
 ["inputs","configurations"],"every option, every spelling, every value and option order",
 "A single test asks the argument library for internal consistency; no command line is ever parsed in the tests.",
 ["src/cli.rs","src/main.rs"],["aliases of each option","dispatch on the option name"],OUT)
p("C54","Contradictory or incomplete commands are rejected before any work",
 "A command that asks for more than one operation, gives TLV settings without a TLV operation, both sorting switches, an option twice (other than masking characters), a missing or empty value or an unknown argument ends with a usage error on standard error, a failing status and no output. Without arguments, or when asked, help is shown, and the version when asked.",
 ["inputs","configurations"],"every pair of operations in every spelling, and every defective command line",
 "No command line is ever parsed in the tests.",
 ["src/cli.rs","src/main.rs"],["exclusive group of operations","requirements and conflicts between options"],OUT)
p("C55","Help, the manual page and the completions tell the truth",
 "A request for help or for the version, amid whatever valid options and with whatever settings in the environment and configuration files, even invalid ones, is answered on standard output with success, always alike, and with nothing else. Short and long help list every operation and setting, and what they list is so: every spelling means the same as the option it is listed for, the default given is the one in force, exactly the possible values given are accepted, and an option described as being for an EMV tag explains that tag. The manual page and the completion scripts that a release build makes for bash, zsh, fish, elvish and PowerShell offer every operation and setting, and only options that the program takes as such.",
 ["inputs","configurations"],"every option, spelling, default and value listed anywhere, and every request for help amid other options and settings",
 "The single test of the command-line definition asks the argument library for internal consistency; help is never requested and nothing that is generated from the definition is looked at.",
 ["src/cli.rs","src/main.rs","src/config/mod.rs","build.rs"],["descriptions, aliases and defaults of each option","order of command-line and configuration handling","generated manual page and completions"],"stdout bytes, generated files")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
import jsonschema
S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
import re
for x in P:
    jsonschema.validate(x,S)
    n=len(re.findall(r'[.!?](?:\s|$)',x['statement']))
    if n>3: print(x['id'],n)
