import os
HERE = os.path.dirname(os.path.abspath(__file__))
# Build and run table of every claimed property.
# bins: name, src (harness files under /verif), libs/repo (files under /repo), variant (see check.py)
# quick/thorough: (cases over all workers, seconds per worker, workers)
LIBS = {
  "top": ["src/logger.c", "src/event.c", "src/conf.c"],
  "dev": ["src/device/card.c", "src/device/disassem.c", "src/device/device.c", "src/device/tape.c", "src/device/xlat.c", "src/device/dasd.c", "src/device/cpu.c"],
  "m2030": ["src/model2030/model2030.c", "src/model2030/cpu2030.c", "src/model2030/model2030_ros.c"],
  "m2050": ["src/model2050/cpu2050.c", "src/model2050/model2050_ros.c", "src/model2050/rollers2050.c"],
}
CHECKS = {
 "C01": dict(
   bins=[dict(name="event", src=["harness/event.cpp"], libs=["top", "dev"], quick=(2400000, 40, 8), thorough=(60000000, 800, 8))],
   rule="random histories of add/cancel/advance (also from inside callbacks) against a model holding each pending event's due time; non-trivial: at least three events fired, one cancel hit a pending event, and two events were pending at once; distinct by hash of the operation sequence"),
 "C03": dict(
   bins=[dict(name="conf", src=["harness/conf.cpp"], libs=["top"], modes={
      "good": dict(quick=(400000, 30, 3), thorough=(10000000, 300, 4)),
      "bad": dict(quick=(100000, 20, 1), thorough=(1000000, 100, 1)),
      "fuzz": dict(quick=(400000, 30, 4), thorough=(10000000, 300, 4))})],
   rule="good: generated configuration lines and files whose every field is known, compared field by field with what the component's create function received; bad: lines with one deliberate defect, which must create nothing or be refused; fuzz: mutated byte strings under AddressSanitizer with a progress limit. Non-trivial: two or more options in the accepted lines (good), every case (bad), a create function reached (fuzz); distinct by hash of the text"),
 "C02": dict(
   bins=[dict(name="registry", src=["harness/registry.cpp"], libs=["top", "dev"], quick=(400000, 30, 8), thorough=(20000000, 400, 8))],
   rule="random histories of attach/remove/find/step/initialise over random 16-bit addresses and masks against ordered lists; non-trivial: three devices on one channel, two successful removals and one successful lookup; distinct by hash of the history"),
 "C04": dict(
   bins=[dict(name="logtest", src=["harness/logtest.cpp"], libs=["top"], quick=(100000, 30, 8), thorough=(3000000, 300, 8))],
   rule="random LOGLEVEL/LOGENABLE/LOGDISABLE lines mixed with messages of every class; the log file is compared line by line with the messages of enabled classes; non-trivial: a level line accepted and at least two messages expected; distinct by hash of the history"),
 "C05": dict(
   bins=[dict(name="card", src=["harness/card.cpp"], libs=["top", "dev"], modes={
      "write": dict(quick=(24000, 40, 3), thorough=(800000, 300, 3)), "read": dict(quick=(30000, 40, 3), thorough=(1000000, 300, 3)), "fuzz": dict(quick=(20000, 40, 2), thorough=(600000, 300, 2))})],
   rule="write: random decks punched in each format, file bytes compared with an independent encoder and read back; read: generated deck files (tabs, carriage returns, long lines, ~raw, control cards, mixed binary) against the cards they describe; fuzz: arbitrary bytes under AddressSanitizer. Non-trivial: two or more cards (over 10 bytes for fuzz); distinct by hash of the cards"),
 "C06": dict(
   bins=[dict(name="card", src=["harness/card.cpp"], libs=["top", "dev"], modes={"queue": dict(quick=(20000, 40, 8), thorough=(800000, 400, 8))})],
   rule="random histories of loading, blanking, reading, emptying, stacking, saving and closing against first-in first-out lists and the expected punch file; non-trivial: three reads, two loads and two cards stacked; distinct by hash of the history"),
 "C07": dict(
   bins=[dict(name="card", src=["harness/card.cpp"], libs=["top", "dev"], modes={"codes": dict(quick=(20000, 30, 8), thorough=(400000, 100, 8))})],
   rule="80 random conversions per case, each against a rule-based model of the card code and EBCDIC; every case is non-trivial; distinct by hash of the conversions"),
 "C08": dict(
   bins=[dict(name="tape", src=["harness/tape.cpp"], libs=["top", "dev"], modes={"ideal": dict(quick=(160000, 40, 8), thorough=(2000000, 500, 8))})],
   rule="random histories of write, mark, read forward/back (whole or part), rewind and reattach on each image format against an ideal tape; record lengths aim at buffer boundaries; non-trivial: two writes, one read and one read back; distinct by hash of the operations and lengths"),
 "C09": dict(
   bins=[dict(name="tape", src=["harness/tape.cpp"], libs=["top", "dev"], modes={"fuzz": dict(quick=(200000, 40, 8), thorough=(3000000, 500, 8))})],
   rule="valid images damaged by mutation, truncation, bad lengths and junk under AddressSanitizer: a forward pass must yield exactly the file's frames up to the first anomaly, and any operation sequence must end; non-trivial: over 8 bytes and more than two operations; distinct by hash of the file and operations"),
 "C12": dict(
   bins=[dict(name="cpu", src=["harness/cpu.cpp"], libs=["top", "dev", "m2030", "m2050"], variant="fast", modes={"exec30": dict(quick=(480000, 60, 8), thorough=(6000000, 800, 8))})],
   rule='random programs of 1..9 instructions (fixed point, logical, branches, SS, decimal, EX, system) with operands chosen at boundaries, run on the Model 30; the whole machine state (16 registers, 4 floating registers, all storage, keys, old PSWs) is compared with an independent Principles of Operation interpreter; architecture-defined freedom (partial results of interrupted instructions, choice among several causes) is masked. Non-trivial: two or more instructions; distinct by hash of the instructions and end state'),
 "C13": dict(
   bins=[dict(name="cpu", src=["harness/cpu.cpp"], libs=["top", "dev", "m2030", "m2050"], variant="fast", modes={"exec50": dict(quick=(720000, 60, 8), thorough=(8000000, 800, 8))})],
   rule='random programs of 1..9 instructions run on the Model 50; the whole machine state (16 registers, 4 floating registers, all storage, keys, old PSWs) is compared with an independent Principles of Operation interpreter; architecture-defined freedom (partial results of interrupted instructions, choice among several causes) is masked. Non-trivial: two or more instructions; distinct by hash of the instructions and end state'),
 "C14": dict(
   bins=[dict(name="cpu", src=["harness/cpu.cpp"], libs=["top", "dev", "m2030", "m2050"], variant="fast", modes={"fp": dict(quick=(720000, 60, 8), thorough=(8000000, 800, 8))})],
   rule='random programs of floating point instructions run on the Model 50; the whole machine state (16 registers, 4 floating registers, all storage, keys, old PSWs) is compared with an independent Principles of Operation interpreter; architecture-defined freedom (partial results of interrupted instructions, choice among several causes) is masked. Non-trivial: two or more instructions; distinct by hash of the instructions and end state'),
 "C15": dict(
   bins=[dict(name="cpu", src=["harness/cpu.cpp"], libs=["top", "dev", "m2030", "m2050"], variant="fast", modes={"err30": dict(quick=(300000, 60, 4), thorough=(4000000, 800, 4)), "err50": dict(quick=(480000, 60, 4), thorough=(5000000, 800, 4))})],
   rule='programs ending in an instruction made wrong (unassigned or privileged operation, odd register, misaligned or out of range operand, bad digit or sign, EX of EX, odd or outside branch target, bad PSW) on both machines; the whole machine state (16 registers, 4 floating registers, all storage, keys, old PSWs) is compared with an independent Principles of Operation interpreter; architecture-defined freedom (partial results of interrupted instructions, choice among several causes) is masked. Non-trivial: two or more instructions; distinct by hash of the instructions and end state'),
 "C16": dict(
   bins=[dict(name="cpu", src=["harness/cpu.cpp"], libs=["top", "dev", "m2030", "m2050"], variant="fast", modes={"prot30": dict(quick=(300000, 60, 4), thorough=(4000000, 800, 4)), "prot50": dict(quick=(480000, 60, 4), thorough=(5000000, 800, 4))})],
   rule='programs of storing instructions, ISK and SSK with random storage and protection keys on both machines; the whole machine state (16 registers, 4 floating registers, all storage, keys, old PSWs) is compared with an independent Principles of Operation interpreter; architecture-defined freedom (partial results of interrupted instructions, choice among several causes) is masked. Non-trivial: two or more instructions; distinct by hash of the instructions and end state'),
 "C17": dict(
   bins=[dict(name="cpu", src=["harness/cpu.cpp"], libs=["top", "dev", "m2030", "m2050"], variant="fast", modes={"diff": dict(quick=(240000, 60, 8), thorough=(4000000, 800, 8))})],
   rule='the same random problem state program on the Model 30 and the Model 50, final states compared with each other. Non-trivial: two or more instructions; distinct by hash of the instructions and end state'),
 "C18": dict(
   bins=[dict(name="chan", src=["harness/chan.cpp", "harness/sdev.c"], libs=["top", "dev", "m2030", "m2050"], variant="fast", modes={"mpx30": dict(quick=(16000, 60, 8), thorough=(400000, 800, 8))})],
   rule="random channel programs (1..5 commands, data chaining, command chaining, TIC, skip, SLI, read, write, read backward, control, sense, rejected and unusual ending status, split or joint ending, burst or byte mode) run by START I/O against a scripted device, compared with a model of the channel: commands and data seen by the device, all of storage, condition code, every interruption and its CSW; non-trivial: two or more bytes moved; distinct by hash of commands and end address"),
 "C19": dict(
   bins=[dict(name="chan", src=["harness/chan.cpp", "harness/sdev.c"], libs=["top", "dev", "m2030", "m2050"], variant="fast", modes={"sel30": dict(quick=(16000, 60, 8), thorough=(400000, 800, 8))})],
   rule="as C18 on the selector channels, every device address and channel; non-trivial: two or more bytes moved; distinct by hash of commands and end address"),
 "C26": dict(
   bins=[dict(name="iosched", src=["harness/iosched.cpp", "harness/sdev.c"], libs=["top", "dev", "m2030", "m2050"], variant="fast", quick=(8000, 60, 8), thorough=(400000, 800, 8))],
   rule="2 and more actions (START I/O with read, write or an immediate command, TEST I/O, HALT I/O, TEST CHANNEL, a window with some channels enabled, a delay) run as one program against 1-4 scripted devices on the three channels, some raising attention by themselves, until everything is at rest; non-trivial: two or more interruptions reached the program; distinct by hash of the actions and addresses"),
 "C11": dict(
   bins=[dict(name="disasm", src=["harness/disasm.cpp"], libs=["top", "dev"], quick=(40000, 20, 8), thorough=(4000000, 120, 8))],
   rule="60 instructions per case (every operation code, random and extreme operand bytes, in a heap block of exactly the instruction's length under AddressSanitizer) disassembled into the log and compared with the mnemonic and operand list written from the Principles of Operation; every case is non-trivial; distinct by hash of the instruction bytes"),
 "C20": dict(
   bins=[dict(name="r1442", src=["harness/r1442.cpp"], libs=["top", "dev"], repo=["src/model1442/model1442.c"], quick=(30000, 45, 8), thorough=(600000, 600, 8))],
   rule="random histories of loading cards, end of file, feed and stop keys, read/punch/feed/select/sense/test I/O and invalid commands with any count on multiplexor or selector style channels, against a model of hopper, read station, punch station and stackers: bytes, every status and sense, all card images; non-trivial: two reads or a read and a punch, and a stacked card; distinct by hash of the operations and stacked cards"),
"C21": dict(
   bins=[dict(name="p1443", src=["harness/p1443.cpp"], libs=["top", "dev"], repo=["src/model1443/model1443.c"], quick=(20000, 45, 8), thorough=(200000, 600, 8))],
   rule="random histories of print, space, skip, sense, test I/O and invalid commands with any data and count, from any line of either carriage tape, with the printer stopped and started, against a model of paper, carriage and sense: the output file, every status; non-trivial: a line printed and two carriage movements; distinct by hash of operations and output"),
"C22": dict(
   bins=[dict(name="t2415", src=["harness/t2415.cpp"], libs=["top", "dev"], repo=["src/model2415/model2415.c"], quick=(10000, 50, 8), thorough=(200000, 600, 8))],
   rule="random histories on 1-3 nine-track drives (SIMH and E11 images, with and without ring, some not loaded) of write, read, read backward, sense, spacing of blocks and files both ways, tape marks, erase, rewind (waited for or left running while other drives work), unload, mode set, test I/O, invalid commands and missing drives, chained or not, on both kinds of channel, against ideal tapes: every data byte, status, sense byte, device end of a rewind, and the image files at the end; non-trivial: a write and two reads or movements; distinct by hash of the operations"),
"C23": dict(
  bins=[dict(name="d2844", variant="fast", src=["harness/d2844.cpp"], libs=["top", "dev"], repo=["src/model2844/model2844.c", "src/model2844/model2844_ros.c"], quick=(8000, 60, 8), thorough=(400000, 800, 8))],
   rule="2 and more actions (START I/O with read, write or an immediate command, TEST I/O, HALT I/O, TEST CHANNEL, a window with some channels enabled, a delay) run as one program against 1-4 scripted devices on the three channels, some raising attention by themselves, until everything is at rest; non-trivial: two or more interruptions reached the program; distinct by hash of the actions and addresses"),
"C24": dict(
  bins=[dict(name="c1052", variant="fast", src=["harness/c1052.cpp", "harness/c1052.c"], flags=["-I" + HERE + "/harness/sdlstub"], libs=["top", "dev"], ldlibs=["-lm", "-lpthread"], quick=(2400, 30, 8), thorough=(200000, 500, 8)),
        dict(name="c1052a", src=["harness/c1052.cpp", "harness/c1052.c"], flags=["-I" + HERE + "/harness/sdlstub"], libs=["top", "dev"], ldlibs=["-lm", "-lpthread"], modes={"asan": dict(quick=(400, 12, 8), thorough=(50000, 250, 8))})],
  rule="random histories of reads, writes (with and without carriage return), sense, no-operation, invalid commands, test I/O and halts on both kinds of channel, while an operator types text, end-of-block, cancel, attention and telnet commands in pieces at random moments, connects and disconnects, against a model of keyboard, paper and channel: every character read, every byte sent to the terminal, every status; non-trivial: a line read and a line printed; distinct by hash of operations and lengths"),
"C10": dict(
  bins=[dict(name="dasd", src=["harness/dasd.cpp"], libs=["top", "dev"], quick=(4000, 45, 8), thorough=(60000, 700, 8))],
  rule="random packs of all four types, formatted by the simulator or made by the harness, with histories of seeks, head selection and advance, recalibration, rotation, whole track writes, record rewrites, track reads and detach/attach through the drive's tag and byte interface, against a model of the pack, the image file parsed at the end; images damaged in header or length must be refused and left alone; non-trivial: a write and a read of a track, or a damaged image; distinct by hash of operations"),
"C25": dict(
  bins=[dict(name="cros", src=["harness/cros.cpp", "harness/crosw2030.c", "harness/crosw2050.c", "harness/crosw2844.c"], libs=[], quick=(6000, 30, 8), thorough=(400000, 500, 8))],
  rule="random listings in the three listing formats (2030, 2050, 2844) with random field values, addresses, spacing, case, notes and optional trailing columns, mixed with comments, headings, blank, cut, mismatched, out of range and misprinted lines; every field of all 4096 words of the generated table against the words written into the listing; non-trivial: at least two words; distinct by hash of addresses and line kinds"),
}
