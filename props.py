"""What decides each property: proof harnesses (Kani), bounded harnesses, native contracts."""

TRUSTED_COMMON = [
    'Kani 0.68.0 / CBMC and its SAT solver; rustc',
    'the specification crate /verif/spec and the harnesses in /verif/kani (read as the statement of the contracts)',
    'the cfg(kani) hooks in /repo: constructors and accessors of private fields, no logic',
]

PROPS = {
    'C06': dict(
        level='proof', technique='Kani contract proof: SimInstr::decode/encode against an ISA spec function, all words and instructions',
        proof=['c06::decode_contract', 'c06::encode_contract'], budget=5,
        functions=['SimInstr::decode', 'SimInstr::encode', 'SimInstr::opcode', 'join_bits', 'get_bits (field extraction)', 'interpret_bits'],
        note='Loop-free over full-domain symbolic words and instructions (loops over fields fully unrolled): a complete proof. Also enumerated natively.',
    ),
    'C15': dict(
        level='proof', technique='Kani contract proof: Word operators over all values, init masks and fillings',
        proof=['c15::add', 'c15::add_value', 'c15::sub', 'c15::sub_value', 'c15::and', 'c15::not', 'c15::accessors'], budget=5,
        functions=['Word as Add/Sub/BitAnd/Not (+ assign forms with Word, u16, i16)', 'Word::get_if_init', 'Word::set_if_init', 'Word::set', 'Word::clear_init', 'Word::is_init', 'Word::new_init', 'Word::new_uninit'],
        note='Complete proof over all operand data, masks and alternative fillings.',
    ),
    'C34': dict(
        level='proof', technique='Kani contract proof: one TimerDevice poll/reset over all states, induction over polls',
        proof=['c34::poll_contract', 'c34::reset_contract', 'c34::range_contract'], budget=5,
        functions=['TimerDevice::poll_interrupt', 'TimerDevice::io_reset', 'TimerDevice::reset_remaining', 'TimerDevice::set_exact', 'TimerDevice::get_range', 'SampleRange::new'],
        trusted=['TimerDevice::try_generate_time is replaced by its contract (any value of the range); rand::Rng::random_range is trusted and only executed (bounded part)'],
        assumptions=['"while its range is unchanged": set_range/set_exact followed by io_reset/reset_remaining or an interrupt', 'the step from the per-poll contract to whole poll sequences is the induction stated in kani/src/c34.rs'],
        note='Per-poll contract proved for every state; sequences follow by induction on polls (argument in c34.rs); RNG trusted. Sequences and seeds also executed natively.',
    ),
    'C35': dict(
        level='proof', technique='Kani contract proof: Offset::new/new_trunc/get at all 32 (width, signedness) pairs and all values',
        proof=['c35::widths_01_08', 'c35::widths_09_16'], budget=5,
        functions=['Offset::new', 'Offset::new_trunc', 'Offset::get', 'OffsetBacking::truncate (u16, i16)'],
        note='Complete proof over all values and widths; also enumerated natively.',
    ),
    'C07': dict(
        level='exploration', technique='Kani contract proof of decode/disassemble/encode per opcode; printed text: every word enumerated on the real code',
        budget=10, exhaustive=True,
        functions=['Stmt/AsmInstr::try_disassemble', 'AsmInstr::from (SimInstr)', 'SimInstr::decode/encode', 'AsmInstr::into_sim_instr'],
        note='Disassembly and re-assembly of each decoded word are proved per opcode; the printed text goes through fmt and the logos lexer, out of reach of the verifier: every 16-bit word is enumerated (exhaustive).',
    ),
}

STEP_FNS = ['Simulator::step_in', 'Simulator::step', 'Simulator::handle_interrupt', 'Simulator::call_interrupt', 'Simulator::call_subroutine',
            'Simulator::read_mem', 'Simulator::write_mem', 'Simulator::fetch', 'Simulator::set_pc', 'Simulator::offset_pc', 'Simulator::set_cc', 'Simulator::prefetch_pc',
            'Simulator::default_mem_ctx', 'Simulator::in_alloca', 'PSR (all accessors)', 'RegFile indexing', 'Word operators as used by the step']
OPS = ['op_br', 'op_add', 'op_ld', 'op_st', 'op_jsr', 'op_jsrr', 'op_and', 'op_ldr', 'op_str', 'op_rti', 'op_not', 'op_ldi', 'op_sti', 'op_jmp', 'op_lea', 'op_trap', 'bad_word', 'illegal']
def ops(m): return ['%s::%s' % (m, o) for o in OPS]
PROPS['C07']['proof'] = ops('c07')
STEP_TRUST = [
    'MemArray indexing is an array over all 65536 addresses (of which the touched cells, at most 6, are materialized: a step touching more fails an ENV assertion and is undecided)',
    'HashMap::get/contains_key (internal register map): any mapping of I/O addresses to registers',
    'DeviceHandler::{io_read, io_write, poll_interrupt} answer anything (their own contracts are proved in C32)',
    'FrameStack::{push_frame, pop_frame} and AccessObserver::{update_mem_accesses, clear} are replaced by recorders (AccessSet is proved in C28, FrameStack in C27)',
    'SimInstr::decode is replaced by its contract, which C06 proves for all words',
    'in the step harnesses Simulator::handle_interrupt is replaced by its contract (arguments recorded, any state afterwards); the entry harnesses prove that contract',
]
LOCK = 'Kani contract proof: one real step from any symbolic machine state against the ISA step specification, per opcode'
for _p, _t, _b, _n, _h in [
    ('C08', LOCK, 12, 'Registers, PC, PSR, saved SP, memory and device log after one step from any state equal the specification: proved per opcode; handler entry proved separately and used by contract. Episodes also executed in lockstep natively.',
        ops('c08') + ['c08::external', 'c08::entry_real', 'c08::entry_virtual']),
    ('C09', LOCK + '; every access made by a user-mode step is in user space or refused', 12, 'Proved for every user-mode state and opcode: no memory cell outside user space and no device is touched, and the violation is reported or vectored.',
        ops('c09') + ['c09::vectored_real', 'c09::vectored_virtual', 'c09::read_access', 'c09::write_access']),
    ('C10', LOCK + '; poll gating, entry contract, entry/RTI inverse; DeviceHandler poll proved bounded', 15, 'Gating and entry proved from any state; transparency: entry followed by RTI from any handler end state that restored the registers gives back PC, PSR, R6. The arbiter (highest priority of n devices) is proved for a bounded number of device slots. Whole programs compared natively.',
        ops('c10') + ['c10::enter_plain', 'c10::enter_strict', 'c10::transparent']),
    ('C14', LOCK + ', strict mode on: same step or a strict error; never a strict error on initialized machines', 12, 'Proved per step from any state and initialization masks; whole runs follow by induction on steps.',
        ops('c14') + ops('c14::init') + ['c14::entry_any', 'c14::entry_init']),
    ('C16', LOCK + ': panic freedom (every arithmetic, index and unwrap obligation of the step)', 12, 'Proved for one step from any state, flags and pending interrupts; runs are repetitions of steps (native).',
        ops('c16') + ['c16::external', 'c16::entry_total']),
    ('C27', LOCK + ': frames pushed and popped', 12, 'Which steps push which frame and pop is proved from any state, so is pop_frame; push_frame is proved for definitions of at most 2 parameters (bounded); whole frame stacks are compared natively.',
        ops('c27') + ['c27::entry', 'c27::push_plain', 'c27::pop_frame']),
    ('C28', LOCK + ': recorded accesses', 12, 'Accesses recorded by a step equal those of the specification, proved from any state; AccessSet operations proved; the observer map is exercised natively.',
        ops('c28') + ['c28::entry', 'c28::read_access', 'c28::write_access', 'c28::access_set']),
]:
    PROPS[_p] = dict(level='proof', technique=_t, budget=_b, note=_n, functions=STEP_FNS, proof=_h, trusted=STEP_TRUST)
PROPS['C10']['bounded'] = ['c32::poll']
PROPS['C27']['bounded'] = ['c27::push_0', 'c27::push_1', 'c27::push_2']
PROPS['C27']['functions'] = STEP_FNS + ['FrameStack::push_frame', 'FrameStack::pop_frame']
PROPS['C28']['functions'] = STEP_FNS + ['AccessSet (all operations)']
PROPS['C08']['assumptions'] = ['device priorities above 7 are not representable in the PSR and excluded', 'ties of priority between devices: any of them']
PROPS['C32'] = dict(level='proof', technique='Kani contract proof: register/device/nothing routing of reads and writes from any mapping; DeviceHandler port table operations', budget=12,
    note='read_mem/write_mem routing from any state and mapping; DeviceHandler io_read/io_write/add/remove over any port table with at most 4 devices and 3 requested ports (bounded harnesses); sequences of operations natively (bounded).',
    functions=['Simulator::read_mem', 'Simulator::write_mem', 'DeviceHandler::io_read', 'DeviceHandler::io_write', 'DeviceHandler::add_device', 'DeviceHandler::remove_device', 'DeviceHandler::get_dev_id'],
    proof=['c32::read', 'c32::write', 'c32::new'], bounded=['c32::access', 'c32::add', 'c32::remove'], trusted=STEP_TRUST[:2])
PROPS['C13'] = dict(level='proof', technique='Kani contract proof: the run loop over any step and tripwire (induction on boundaries), the tripwire of each run function, breakpoint predicates',
    budget=20, note='The loop of run_while is proved for two steps, each of which leaves any state, so the second stands for every later one (induction stated in kani/src/c13.rs); run, run_with_limit, step_over, step_out proved to pass the right tripwire. Programs and pause schedules also executed natively.',
    functions=['Simulator::run_while', 'Simulator::run', 'Simulator::run_with_limit', 'Simulator::step_over', 'Simulator::step_out', 'Simulator::step_in', 'Breakpoint::check', 'Comparator::check', 'Simulator::hit_breakpoint', 'Simulator::hit_halt'],
    proof=['c13::run_loop', 'c13::step_in', 'c13::tripwires', 'c13::breakpoints'],
    trusted=['Simulator::step is replaced by: any state afterwards, any result (its contract is proved in C08)', 'the run loop is proved with a set of two breakpoints (any values); hashbrown iteration yields every element', STEP_TRUST[3]],
    assumptions=['the frame depth at a step-out is at least 1', 'pauses which coincide with the machine turning itself off are outside the splitting'])

ASM_FNS = ['parse_ast', 'assemble / assemble_debug', 'SymbolTable::new', 'AsmInstr::into_sim_instr', 'StaticDirective/Directive::word_len', 'ObjectFile::new']
OBJ_FNS = ['ObjectFile::link', 'BinaryFormat/TextFormat serialize, deserialize', 'SymbolTable queries', 'SourceInfo', 'LineSymbolMap']
OS_FNS = ['Simulator::new', 'Simulator::reset', 'Simulator::load_obj_file', 'Simulator::run_while', 'src/os.asm routines', 'BufferedKeyboard', 'BufferedDisplay', 'TimerDevice']
REF = 'bounded: functional contract (independent reference assembler over generated source programs) executed on the real code'
for _p, _t, _b, _n, _f in [
    ('C01', REF, 15, 'Generated programs in all statement forms and layouts; image compared word by word.', ASM_FNS),
    ('C02', REF, 15, 'Well-formed and ill-formed programs; the accepted set and error kind compared.', ASM_FNS),
    ('C03', REF, 15, 'Statement lists rendered in random layouts and parsed back.', ASM_FNS),
    ('C04', 'bounded: totality and span contract executed on generated texts', 15, 'Random and mutated texts.', ASM_FNS),
    ('C05', 'bounded: value contract of numeric and register tokens executed on enumerated and generated tokens', 15, 'All register numbers, all values in all notations, boundary digits.', ASM_FNS),
    ('C11', 'bounded: per-routine contracts of the built-in OS executed on the real simulator', 12, 'OS routines are LC-3 machine code: every byte for the single-character routines, generated strings and states otherwise.', OS_FNS),
    ('C12', 'bounded: relational contract (virtual / real traps) executed on generated user programs', 15, 'Generated user programs.', OS_FNS),
    ('C17', 'bounded: round-trip contract executed on generated object files', 15, 'Generated, linked and edited object files.', OBJ_FNS),
    ('C18', 'bounded: round-trip contract executed on generated object files', 15, 'Generated, linked and edited object files.', OBJ_FNS),
    ('C19', 'bounded: totality contract executed on generated and mutated object files', 15, 'Mutated binary and text object files.', OBJ_FNS),
    ('C20', 'bounded: linking contract (reference linker) executed on generated object files', 15, 'Sets of generated files linked in all orders.', OBJ_FNS),
    ('C21', 'bounded: linking contract executed on generated object files', 12, 'Every linking order and grouping of generated files with externals.', OBJ_FNS),
    ('C22', 'bounded: debug-information contract executed on linked files', 12, 'Generated linked files.', OBJ_FNS),
    ('C23', 'bounded: query contract executed on generated symbol tables', 12, 'Generated, linked and read symbol tables.', OBJ_FNS),
    ('C24', 'bounded: line-map contract executed on generated programs', 12, 'Generated programs in random layouts.', OBJ_FNS),
    ('C25', 'bounded: position contract executed on enumerated and generated texts', 12, 'All short texts over a small alphabet, generated longer ones.', OBJ_FNS),
    ('C26', 'bounded: span contract executed on generated failing programs and links', 12, 'Ill-formed programs and conflicting files.', ASM_FNS),
    ('C29', 'bounded: load contract executed on generated object files and machines', 12, 'Whole memory compared before and after loading.', OS_FNS),
    ('C30', 'bounded: reset contract executed after generated histories', 12, 'Whole machine compared with a new one.', OS_FNS),
    ('C31', 'bounded: relational contract executed on pairs of simulators', 12, 'Histories of steps, runs, resets and timer changes.', OS_FNS),
    ('C33', 'bounded: delivery contract executed under generated lock schedules', 12, 'Schedules of lock holds between instructions.', OS_FNS),
    ('C36', 'bounded: print/parse round trip executed on generated statements', 12, 'Generated statements of every form.', ASM_FNS),
]:
    PROPS[_p] = dict(level='exploration', technique=_t, budget=_b, note=_n, functions=_f)
PROPS['C01'].update(technique='bounded: reference assembler over generated programs, executed on the real code; Kani contract proofs of operand resolution and of the offset/word emission per statement', note='The label resolution and encoding of each instruction are proved for all operands (label table: any answer); whole images of generated programs compared word by word (bounded).', proof=['c01::resolve_9', 'c01::resolve_11', 'c01::plain', 'c01::offsets'])
PROPS['C02'].update(technique='bounded: reference assembler over well- and ill-formed programs, executed on the real code; Kani contract proofs of offset range errors and block overlap', note='Label-offset errors and the overlap test are proved for all values; the accepted set and error kind are compared on generated programs (bounded).', proof=['c01::resolve_9', 'c01::resolve_11', 'c01::overlap'])
OS_TRUST = [
    'one step of the machine is `lc3spec::step` (proved against the real step in C08)',
    'the OS image is the one of the simulator: it is dumped from Simulator::new on every run (kani/src/os_image.rs); nothing of it is dropped',
    'keyboard and display: status registers answer anything, data registers the next byte / take one byte (the real devices: C33)',
]
PROPS['C11'].update(level='proof', extract=True, proof=['c11::%s' % h for h in ('getc', 'putc', 'puts', 'input', 'putsp', 'halt')],
    technique='Kani contract proof of the built-in OS: the machine code of each routine on the proved step specification, loops by invariants, nested routines by contract; executed natively as well',
    note='Every routine from every caller state (registers, mode, priority, memory), with strings of any length and any number of polls: proved on the step contract of C08. Real executions (all bytes, generated strings and states) are the bounded part.',
    functions=['src/os.asm (GETC, OUT, PUTS, IN, PUTSP, HALT), as assembled into the simulator', 'TRAP entry'] + OS_FNS,
    trusted=OS_TRUST,
    assumptions=['no interrupts are taken during the routine (their transparency: C10)', 'the string of PUTS/PUTSP is not in the I/O page and not the live part of the supervisor stack', 'the supervisor stack has room below it, outside of the OS and the I/O page'])
PROPS['C12'].update(level='proof', extract=True, proof=ops('c12') + ['c11::privilege', 'c11::opcode', 'c11::access', 'c11::halt'],
    technique='Kani contract proof: a virtual-trap step that goes through equals the real-trap step, per opcode; OS HALT and exception routines proved on the step contract; executed natively as well',
    note='Agreement per step from any state, then HALT/exception entry (C08) and the OS routines that they enter; whole programs follow by induction on steps. The texts of the messages and whole programs are compared natively (bounded).',
    functions=STEP_FNS + ['src/os.asm (HALT and exception routines), as assembled into the simulator'], trusted=STEP_TRUST + OS_TRUST,
    assumptions=PROPS['C11']['assumptions'])
PROPS['C25'].update(bounded=['c25::position'], functions=['SourceInfo::count_lines', 'SourceInfo::get_pos_pair', 'SourceInfo::get_line', 'SourceInfo::raw_line_span', 'SourceInfo::line_span', 'SourceInfo::read_line'],
    technique='bounded: position contract by Kani for texts of at most 8 lines, any length; executed on enumerated and generated texts')
PROPS['C28']['bounded'] = ['c28::observer']
PROPS['C28']['functions'] += ['AccessObserver::update_mem_accesses', 'AccessObserver::get_mem_accesses']

PROPS['C05'].update(proof=['c05::operand_%s' % h for h in ('imm5', 'off6', 'off9', 'off11', 'trap', 'size', 'fill', 'reg')], bounded=['c05::%s' % h for h in ('dec', 'signed_dec', 'hex', 'signed_hex', 'reg')],
    functions=['lex_unsigned_dec', 'lex_signed_dec', 'lex_unsigned_hex', 'lex_signed_hex', 'lex_reg', 'convert_int_error', 'TokenParse for Offset<i16, N>, Offset<u16, N>, IntLiteral, Reg'] + ASM_FNS,
    technique='Kani contract proof of operand acceptance for every token value; bounded Kani proof of the value of each numeric token (at most 16 characters); executed on enumerated and generated tokens',
    note='Which operands accept which token values: proved for all values. Token to value: Kani for all tokens of at most 16 ASCII characters (bounded). Which text is a token (logos automaton) is executed natively on enumerated and generated texts (bounded).')
PROPS['C17'].update(proof=['c19::take', 'c19::digits'], bounded=['c19::chunks_2', 'c19::chunks_3'])
PROPS['C18'].update(proof=['c19::digits'], bounded=['c19::hex'])
PROPS['C19'].update(proof=['c19::take', 'c19::digits'], bounded=['c19::chunks_2', 'c19::chunks_3', 'c19::sorted', 'c19::hex'])
for _p, _t in [('C17', 'field extraction of the binary format'), ('C18', 'word tokens of the text format'), ('C19', 'the field readers of both formats')]:
    PROPS[_p]['technique'] += '; Kani contract proof of ' + _t
    PROPS[_p]['functions'] = OBJ_FNS + ['take', 'take_slice', 'try_split_at', 'map_chunks', 'assert_sorted_no_dup', 'hex2u16', 'maybe_hex2u16', 'count_digits']
PROPS['C26'].update(bounded=['c26::%s' % h for h in ('vec_0', 'vec_1', 'vec_2', 'vec_3', 'vec_4', 'extend_1_1', 'extend_1_3', 'extend_2_4', 'extend_3_4')],
    functions=['ErrSpan::from', 'ErrSpan::first', 'ErrSpan::iter', 'ErrSpan::extend'] + ASM_FNS,
    technique='bounded: span contract executed on generated failing programs and links; Kani proof of ErrSpan operations for at most 7 spans')
PROPS['C30'].update(proof=['c30::reset'], functions=['Simulator::reset'] + OS_FNS,
    technique='Kani contract proof of Simulator::reset from any machine (what is replaced, what is kept); executed after generated histories',
    trusted=['Simulator::new_with_mcr is replaced by: any new machine (compared natively)', 'one breakpoint, one mapped register and one device stand for each collection'],
    note='Which parts reset replaces and which it keeps is proved for any machine before and any new machine; whole machines are compared with new ones after generated histories (bounded).')
PROPS['C31'].update(bounded=['c31::known'], functions=['RegFile::new', 'WordFiller::generate_boxed_array (memory)'] + OS_FNS)
PROPS['C33'].update(extract=True, proof=['c11::getc', 'c11::putc'], bounded=['c33::%s' % h for h in ('kbsr', 'kbdr', 'kbdr_view', 'kbd_other', 'kbd_write', 'kbd_poll', 'dsr', 'ddr')],
    functions=['BufferedKeyboard::{io_read, io_write, poll_interrupt}', 'BufferedDisplay::{io_read, io_write}', 'src/os.asm (GETC, OUT)'] + OS_FNS,
    technique='bounded: delivery contract executed under generated lock schedules; Kani proofs of the devices under any lock state (buffers of at most 3 bytes) and of the polling routines for any number of polls',
    trusted=OS_TRUST,
    note='Device registers under any lock state: bounded Kani proofs; GETC/OUT wait until ready, for any number of polls: proved; schedules of lock holds between instructions executed natively (bounded).')
