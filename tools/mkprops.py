#!/usr/bin/env python3
"""Single source of properties.jsonl (run from /verif after editing)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Timed events fire exactly once, at their time, unless cancelled",
 "For every history of scheduling, cancelling and advancing, each scheduled event calls back exactly once, with the arguments it was given, exactly the requested number of clock cycles after it was scheduled (at once when the delay is zero), unless it was cancelled first. Cancelling removes the soonest pending event of that device and callback, if there is one, and disturbs no other event's time, and callbacks may themselves schedule and cancel. No history makes the scheduler touch freed memory.",
 ["histories"],"all interleavings of add, cancel and advance, including from inside callbacks",
 "event_test.c has seven short scripted histories with at most a few events; deltas between list neighbours only break for particular orders of add and cancel.",
 ["src/event.c","src/event.h"],[("delta list insert/cancel/advance","src/event.c")],["callback invocations"],
 [("event_head/event_tail","delta-coded list of pending events","src/event.c")])

p("C02","Devices are found by address, and removed, without disturbing others",
 "After any sequence of attaching and removing devices at bus addresses, looking up an address under a mask returns a device attached there exactly when there is one, on the addressed channel only, and every other attached device stays attached and in order. Disk drives registered for stepping are each stepped exactly once per step until removed. No channel number in an address makes the registry touch memory outside its tables.",
 ["histories","inputs"],"all sequences of attach/remove/lookup over all 16-bit addresses",
 "No test exercises the registry beyond attaching one or two devices.",
 ["src/device/device.c","src/device/device.h"],[("channel lists","src/device/device.c add_chan/find_chan/del_chan"),("disk step list","src/device/device.c add_disk/del_disk/step_disk")],["chan lists","step callbacks"])

p("C03","Configuration lines are parsed exactly and never corrupt memory",
 "For every configuration line, a well-formed one creates exactly the named component with exactly the model letter, address, dash and slash numbers and option values written, and a malformed one, or one naming an unknown component, creates nothing. Whatever the bytes of the line or file, parsing terminates and stays inside its buffers.",
 ["inputs","configurations"],"all configuration lines and files, well-formed or not",
 "No test covers the parser except indirectly through a dozen fixed lines in the device tests.",
 ["src/conf.c","src/conf.h","src/logger.c"],[("load_line/load_config","src/conf.c"),("get_model/get_addr/get_option/get_string/get_integer/get_index","src/conf.c")],["component create callbacks","return codes"])

p("C04","Log switches select exactly the named message classes",
 "For every list of log options in a configuration, exactly the named message classes become enabled and an unknown name is refused. A message of an optional class is written to the log file if and only if its class is enabled, and informational, warning and error messages always are, each once and in order, with its arguments formatted as given.",
 ["inputs","histories"],"all option lists and message sequences",
 "No test looks at logging at all.",
 ["src/logger.c","src/logger.h"],[("option parsing and output","src/logger.c")],["log file contents"])

p("C05","Card decks survive being written and read back in every format",
 "For every deck of 80-column cards that a deck file format can represent, punching the deck to a file and loading the file again gives the same cards, column for column, and the same number of cards. For every file, loading terminates inside its buffers and yields either an error or cards whose columns hold only twelve-bit punches.",
 ["inputs"],"all card images, all formats (text, binary, EBCDIC, octal, auto-detect), all input files",
 "card_test.c reads and writes a handful of fixed decks.",
 ["src/device/card.c","src/device/card.h"],[("format parsers and writers","src/device/card.c")],["card images","deck file bytes"])

p("C06","Hoppers and stackers are first-in first-out queues of cards",
 "For every history of loading decks, adding blank cards, reading, punching, stacking and emptying, the cards come out of a hopper in the order they went in and a stacker holds exactly the cards stacked, and the reported counts are always the number of cards present. No card is lost, duplicated or altered.",
 ["histories"],"all sequences of hopper and stacker operations",
 "card_test.c checks a few fixed sequences; growth and reuse of the card arrays depend on long histories.",
 ["src/device/card.c"],[("card context queues","src/device/card.c")],["hopper_size/stack_size","read_card results"])

p("C07","Character code translations are consistent inverses",
 "For every code value, translating from EBCDIC to card punches and back returns the same byte, every byte has a distinct punch combination, and the character translations used by the card, printer and console devices agree with each other on every character that both sides define. The parity bit supplied for a byte always makes its total parity odd.",
 ["inputs"],"all 256 bytes and all 4096 punch combinations, over random conversions",
 "Tests only convert the characters that occur in their fixed decks.",
 ["src/device/xlat.c","src/device/xlat.h","src/device/card.c"],[("translation tables","src/device/xlat.c, src/device/card.c")],["translated values"])

p("C08","Tape images store and replay any sequence of records and marks",
 "For every history of writing records and tape marks, spacing, backspacing, rewinding, reading in either direction and reattaching, in every supported tape image format, each operation returns the bytes, lengths, marks and end-of-data that an ideal tape would return. After detaching, the image file holds exactly the records written, in the documented format.",
 ["histories","inputs"],"all operation sequences, record lengths and contents, for each image format",
 "tape_test.c has eleven short scripts with small records; buffer refills and rewrites are only reached by long records and direction changes.",
 ["src/device/tape.c","src/device/tape.h"],[("buffered image access","src/device/tape.c")],["record bytes","image file bytes","status results"],
 [("pos/pos_buff/dirty","position in the file and buffer","src/device/tape.h")])

p("C09","Damaged tape images never hang or corrupt the simulator",
 "For every file offered as a tape image, in every format, every sequence of tape operations terminates, stays inside its buffers, and reports an end or an error rather than inventing data that is not in the file.",
 ["inputs","fault_sequences"],"all image files including truncated and corrupted ones",
 "The tests only attach images the simulator itself wrote.",
 ["src/device/tape.c"],[("record framing","src/device/tape.c")],["operation results","sanitizer"])

p("C10","Disk pack images keep every track's contents",
 "For every history of formatting, seeking, selecting heads and writing tracks on a disk pack of any supported type, reading any track back returns what was last written there, also after the pack is detached and attached again, and no other track changes. A pack image of the wrong kind or with a corrupt header is refused rather than used or overwritten.",
 ["histories","inputs"],"all drive types, cylinders, heads, write histories and reattachments",
 "The disk controller tests write a few tracks of one drive type and never reattach an image.",
 ["src/device/dasd.c","src/device/dasd.h"],[("image attach/format/seek/read/write","src/device/dasd.c")],["track bytes","image file bytes"])

p("C11","Disassembly names each instruction and its operands correctly",
 "For every instruction, the disassembler prints the mnemonic of that operation code, the operands of its format with the values encoded, and depends on no byte beyond the instruction's own. Undefined operation codes are shown as such, and no input overruns a buffer.",
 ["inputs"],"all 65536 first halfwords with random operand bytes",
 "No test checks disassembly output.",
 ["src/device/disassem.c","src/device/cpu.c"],[("opcode table and formatting","src/device/disassem.c")],["printed text"])

p("C12","Model 30 instructions produce architected results",
 "For every instruction of the standard and decimal sets and all operand values, executing it on the emulated Model 30 changes the general registers, storage, condition code and instruction address exactly as the System/360 Principles of Operation defines. No other register or storage location changes.",
 ["programs","inputs"],"all fixed-point, logical, branch and decimal instructions with all operands, alone and in sequences",
 "The instruction tests run one or two fixed operand values per instruction and never compare the whole machine state.",
 ["src/model2030/cpu2030.c","src/model2030/cros2030.c","src/model2030/ccros2030.txt"],[("microinstruction execution","src/model2030/cpu2030.c cycle_2030"),("microprogram","src/model2030/ccros2030.txt")],["registers","storage","condition code"])

p("C13","Model 50 instructions produce architected results",
 "For every instruction of the standard and decimal sets and all operand values, executing it on the emulated Model 50 changes the general registers, storage, condition code and instruction address exactly as the System/360 Principles of Operation defines. No other register or storage location changes.",
 ["programs","inputs"],"all fixed-point, logical, branch and decimal instructions with all operands, alone and in sequences",
 "The instruction tests run one or two fixed operand values per instruction and never compare the whole machine state.",
 ["src/model2050/cpu2050.c","src/model2050/cros2050.c","src/model2050/ros.txt"],[("microinstruction execution","src/model2050/cpu2050.c"),("microprogram","src/model2050/ros.txt")],["registers","storage","condition code"])

p("C14","Model 50 floating point follows hexadecimal arithmetic",
 "For every short and long floating-point instruction and all operand values, the emulated Model 50 leaves the result, the condition code and the exponent, significance and divide exceptions that System/360 hexadecimal floating-point arithmetic defines. Registers not named by the instruction do not change.",
 ["inputs","programs"],"all floating-point instructions, all operand fractions, exponents and signs",
 "The tests use a few values per instruction, and the random ones compare against host floating point within a tolerance.",
 ["src/model2050/cpu2050.c","src/model2050/ros.txt"],[("floating-point microprogram","src/model2050/ros.txt")],["floating-point registers","condition code"])

p("C15","Program errors always interrupt with the architected state",
 "Every instruction with an invalid operation code, privileged use, odd or misaligned operand, bad decimal data, overflow or division error ends in the one program interruption the architecture assigns, with the old program status word holding that code, the condition code, masks and instruction address, and with suppressed operands unchanged. Errors whose mask bit is off cause no interruption.",
 ["programs","inputs"],"all erroneous instructions and all mask settings on both processors",
 "The tests check one interruption code for a few instructions and rarely look at the stored status word.",
 ["src/model2030/cpu2030.c","src/model2050/cpu2050.c"],[("trap handling","src/model2030/cpu2030.c, src/model2050/cpu2050.c")],["old PSW","registers","storage"])

p("C16","Storage keys protect storage from every store and nothing else",
 "For every protection key and storage key, an instruction that would store into a block whose key differs from a non-zero protection key ends in a protection interruption without changing that block, and one that is allowed to store, or only fetches, proceeds. Setting and inserting storage keys affects and reports exactly the addressed 2K block.",
 ["programs","configurations"],"all store instructions, keys and blocks on both processors",
 "Two or three tests set one mismatching key.",
 ["src/model2030/cpu2030.c","src/model2050/cpu2050.c"],[("storage key check","src/model2030/cpu2030.c, src/model2050/cpu2050.c")],["storage","interruption code"])

p("C17","Both processors run the same program to the same state",
 "For every program of non-privileged instructions, the emulated Model 30 and Model 50 started from the same registers and storage reach the same registers, storage, condition code and interruptions.",
 ["programs"],"all instruction sequences and initial states",
 "Each processor's tests are run alone, one instruction at a time.",
 ["src/model2030/cpu2030.c","src/model2050/cpu2050.c"],[("instruction execution","both processors")],["registers","storage","PSW"])

p("C18","Multiplexor channel programs transfer exactly what they describe",
 "For every channel program run on the multiplexor channel of the Model 30, the device sees exactly the commands chained, data moves between the device and exactly the storage described by counts, data chaining, skip and read-backward, and the final channel status word holds the right command address, residual count, device status and channel status including incorrect length, and START I/O stores status only with condition code 1. A program-controlled interruption comes once its CCW is reached; an invalid first CCW is refused with a program check before the device starts. Storage outside the described areas does not change.",
 ["programs","configurations"],"all channel programs over chaining, flags, counts and device record lengths",
 "The I/O tests run a fixed list of channel programs with one device record length each.",
 ["src/model2030/cpu2030.c"],[("channel microprogram and hardware","src/model2030/cpu2030.c")],["CSW","storage","device data"])

p("C19","Selector channel programs transfer exactly what they describe",
 "For every channel program run on a selector channel of the Model 30, the device sees exactly the commands chained, data moves between the device and exactly the storage described by counts, data chaining, skip and read-backward, and the final channel status word holds the right command address, residual count, device status and channel status including incorrect length, and START I/O stores status only with condition code 1. A program-controlled interruption comes once its CCW is reached; an invalid CCW, an address outside storage and storage with another key end the operation with a program or protection check, and nothing is stored there. Storage outside the described areas does not change.",
 ["programs","configurations"],"all channel programs over chaining, flags, counts and device record lengths",
 "The I/O tests run a fixed list of channel programs with one device record length each.",
 ["src/model2030/cpu2030.c"],[("selector channel","src/model2030/cpu2030.c")],["CSW","storage","device data"])

p("C20","The 1442 reads and punches cards in order and reports status",
 "For every sequence of commands to the card read punch and every deck, the data read are the columns of the cards in hopper order, the cards punched hold the data sent, each card goes to the stacker selected, and the ending and sense status report end of file, unready, and invalid commands exactly when they occur. No command sequence leaves the unit hung.",
 ["histories"],"all command sequences, decks, transfer lengths and operator actions",
 "model1442_test.c runs fourteen fixed sequences.",
 ["src/model1442/model1442.c"],[("1442 state machine","src/model1442/model1442.c")],["channel data and status","stacker contents"])

p("C21","The 1443 prints exactly the lines and spacing commanded",
 "For every sequence of print and carriage commands, the output holds each line's characters in order, with the spacing and skips commanded by the carriage tape, and status and sense reflect channel nine and twelve, unready and invalid commands exactly when they occur.",
 ["histories","inputs"],"all print and carriage command sequences and line contents",
 "model1443_test.c has three tests.",
 ["src/model1443/model1443.c"],[("1443 state machine","src/model1443/model1443.c")],["printed file","channel status"])

p("C22","The 2415 moves tape and data exactly as commanded",
 "For every sequence of tape commands to the nine-track drives of the tape control, each given when the control unit is free, the data read and written, the resulting tape positions and the image contents match ideal tape drives, and ending and sense status report tape marks, load point, file protection, drives not ready and incorrect commands exactly when they occur. A rewinding drive is busy, leaves the other drives usable and presents its own device end once, at load point.",
 ["histories"],"all command sequences, record lengths, densities and units with nine-track SIMH and E11 images; drives of the seven-track kind, halt I/O and end of reel are outside",
 "model2415_test.c runs sixteen fixed sequences.",
 ["src/model2415/model2415.c","src/device/tape.c"],[("2415 state machine","src/model2415/model2415.c")],["channel data and status","tape image"])

p("C23","The 2844 disk control reads and writes the addressed records",
 "For every sequence of seek, search, read and write channel programs to the disk control, data read are those last written to the addressed record, searches end successfully exactly on matching records, and status and sense report no-record-found, file protection and invalid commands exactly when they occur. No other record changes.",
 ["histories","programs"],"all seek/search/read/write histories over cylinders, heads, records and lengths",
 "model2844_test.c runs nineteen fixed channel programs on a freshly formatted pack.",
 ["src/model2844/model2844.c","src/model2844/model2844_ros.txt","src/device/dasd.c"],[("2844 microprogram","src/model2844/model2844_ros.txt")],["channel data and status","pack contents"])

p("C24","The 1052 console passes every character between user and program",
 "For every sequence of typed lines and printed data, the program receives exactly the characters typed, translated to EBCDIC, and the terminal receives exactly the characters written, in order. Ending, attention and cancel status are presented exactly when they occur, and no input bytes on the terminal connection corrupt or hang the simulator.",
 ["histories","inputs"],"all typed and printed byte sequences and command interleavings",
 "No test exercises the console at all.",
 ["src/model1052/model1052.c"],[("console state machine and telnet input","src/model1052/model1052.c")],["terminal bytes","channel data and status"])

p("C25","Microcode translation preserves every field of every word",
 "For every microprogram listing accepted, each field of each control word in the generated table has the value written in the listing at that word's address. Lines not in the listing format are ignored or reported rather than placed in the table.",
 ["inputs"],"all listings in each of the three listing formats",
 "The tests only use the one committed listing of each machine.",
 ["src/model2030/cros2030.c","src/model2050/cros2050.c","src/model2844/cros2844.c"],[("listing translators","src/model2030/cros2030.c, src/model2050/cros2050.c, src/model2844/cros2844.c")],["generated header"])

p("C26","I/O interruptions and device status are never lost or misattributed",
 "On the Model 30, for every mix of devices on its multiplexor and selector channels and every sequence of I/O instructions, START, TEST and HALT I/O (the latter to the multiplexor channel) and TEST CHANNEL set the condition code the device and channel state call for, and each status a channel accepts from a device reaches the program exactly once, with the right device address, residual count and command address, either by an interruption permitted by the system mask or by TEST I/O. Masked interruptions stay pending until enabled; a refused command moves no data.",
 ["schedules","histories","programs"],"all I/O instruction sequences over several devices, masks and device timings",
 "The I/O tests use one device at a time with the interrupts enabled at fixed points.",
 ["src/model2030/cpu2030.c","src/model2030/ccros2030.txt"],[("interruption microprogram and channel polling","src/model2030/cpu2030.c")],["condition codes","I/O old PSW","CSW"])

open("properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
