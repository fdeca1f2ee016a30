# pylint: disable=undefined-variable
MON = 'runtime monitoring: '

prop('C01', 'Every network block runs exactly once per cycle, producers first',
     'For any network of connected blocks and any choice of starting blocks, the computed execution order contains '
     'every block reachable over connections (followed in either direction, value or message) exactly once and no '
     'other block. Whenever one block feeds another and both are not part of a common feedback loop, the producer '
     'runs first, so in a feedback-free network every consumer works on data of the current cycle. An order is '
     'always found, also with feedback loops, self connections and parallel connections, and the main loop executes '
     'exactly this order in every cycle.',
     ['programs', 'configurations'],
     'all finite block networks (topologies, connection kinds, sharing of ports), all sets of starting blocks, all '
     'numbers of cycles',
     'The tests sort four or five fixed graphs of at most a dozen nodes; the set of networks users patch is '
     'unbounded, and a wrong order only shows as one buffer of latency.',
     ['klang/execution.py', 'klang/graph.py', 'klang/block.py', 'klang/klang.py'],
     [('network traversal', 'klang/execution.py:traverse_network'),
      ('topological sorting after removing back edges', 'klang/graph.py:topological_sorting'),
      ('main loop', 'klang/klang.py:run_klang')],
     ['order returned for a network', 'update calls logged by probe blocks', 'values seen by probe blocks'],
     MON + 'logging probe blocks in random networks, order/freshness oracle against an independent graph model',
     'Held on the thousands of random networks run, up to 60 blocks; says nothing about networks not generated.')

prop('C02', 'The connection graph stays consistent under any patching history',
     'After any history of connecting, disconnecting and piping, an input has at most one source, an output lists '
     'exactly the inputs that name it as their source, and all connection queries and block-level neighbour views '
     'agree with that. Connecting incompatible ends or an input that already has a source, or disconnecting ends '
     'which are not connected, is refused and leaves all connections as they were. A value input or relay always '
     'reads the current value of its ultimate source, and its own stored value when it has none.',
     ['histories'],
     'all finite sequences of legal and illegal patch operations, from either side, over any number of outputs, '
     'relays and inputs of both families (without relay loops)',
     'Tests check single connect / disconnect calls on fresh pairs; interleaved histories with rejected operations '
     'and relay chains are not sampled.',
     ['klang/connections.py', 'klang/block.py'],
     [('symmetric bookkeeping', 'klang/connections.py:make_connection, break_connection'),
      ('pull-through of values', 'klang/connections.py:Input.value'),
      ('pipe operator', 'klang/block.py:pipe_operator')],
     ['connection sets after every operation', 'exceptions of refused operations', 'values read at every port'],
     MON + 'structural invariants and a shadow graph compared after every operation of random patch histories',
     'Held on the random histories executed; every step compares the complete structure.',
     state=[('outgoing / incoming sets', 'both directions of every connection', 'klang/connections.py')])

prop('C03', 'Messages are delivered exactly once and in order to every connected receiver',
     'A message sent while a path of connections leads to a receiver (directly or through relays) can be received '
     'there exactly once, in sending order, independent of other receivers, also when sender and receiver run in '
     'different threads; nothing is delivered over removed connections or to unconnected receivers. A receiver which '
     'falls behind keeps exactly the most recent 50 messages. Asking for the latest message returns the newest one '
     'and discards the rest; abandoning an iteration loses no message that was not handed out.',
     ['histories', 'schedules'],
     'all interleavings of sends, (partial) receives, latest-only receives and patch changes over any fan-out tree, '
     'including a concurrent sender thread',
     'Tests send a handful of messages over one connection; loss, duplication and reordering depend on the history '
     'and on the schedule.',
     ['klang/connections.py'],
     [('bounded queue per receiver', 'klang/connections.py:_MessageQueue'),
      ('fan-out', 'klang/connections.py:MessageOutput.send, MessageRelay')],
     ['messages handed out by each receiver, with unique ids'],
     MON + 'exactly-once / FIFO checker over recorded histories of unique messages, two-thread stress',
     'Held on the recorded histories; thread interleavings are those the interpreter produced under stress.',
     state=[('message queue', 'pending messages of a receiver', 'klang/connections.py')])

prop('C04', 'A composite behaves like the blocks it bundles',
     'Running a feedback-free network in which parts are bundled in (nested) composites gives every block the same '
     'data in the same cycle as running the flat network: each internal block runs exactly once per update of its '
     'composite, producers first, and nothing outside the composite is run by it. Determining the internal order or '
     'temporarily isolating a block leaves every connection as it was, also when an error occurs meanwhile. The user '
     'is warned exactly when a block would be executed several times per cycle.',
     ['programs', 'configurations'],
     'all feedback-free networks, all partitions into nested composites, all orders of patching, relay order and '
     'relay sharing, value and message connections',
     'One test builds one composite with two blocks; the internal order depends on relay order and topology.',
     ['klang/composite.py', 'klang/execution.py', 'klang/klang.py'],
     [('internal execution order', 'klang/composite.py:Composite.update_internal_exec_order'),
      ('temporary isolation', 'klang/composite.py:temporarily_unpatch'),
      ('duplicate detection', 'klang/klang.py:validate_global_execution_order')],
     ['values and messages at every probe block per cycle', 'update log', 'connection snapshots', 'warnings'],
     MON + 'probe blocks in random nested composites compared with direct evaluation of the flat network',
     'Held on the random partitions run for three cycles each.')

prop('C05', 'Delay lines and delay effects delay by exactly the configured time',
     'A sample written to a delay line is read again exactly the line length later, whatever the chunk sizes, '
     'single-sample and multi-channel writes are mixed, and a changed length (up to the capacity) applies to all '
     'later samples; oversized writes or lengths are refused. Delay effects output the blend of the dry signal and '
     'the signal delayed by the configured time (seconds or note value), fed back with the configured gain, the two '
     'channels of the stereo delay being independent; delay times beyond the maximum are refused.',
     ['inputs', 'histories'],
     'all line lengths and capacities, all chunkings with chunks no longer than the delay, all signals, delay times '
     'from one audio buffer to the maximum',
     'The ring buffer tests use one length and chunk pattern; the delay blocks are not tested at all.',
     ['klang/ring_buffer.py', 'klang/audio/effects.py'],
     [('ring with mirrored tail', 'klang/ring_buffer.py:RingBuffer.append, extend'),
      ('delay blocks', 'klang/audio/effects.py:Delay, StereoDelay')],
     ['samples read from the line', 'output buffers of delay blocks'],
     MON + 'every read compared with a list model holding unique samples; delay blocks against the difference '
     'equation',
     'Held on random lengths and chunkings; delays shorter than a chunk are documented as unsupported and excluded.')

prop('C06', 'Comb and echo filters follow their difference equation for any chunking',
     'The feed-forward, feed-back and echo filters compute their difference equation sample by sample, independent '
     'of how the signal is cut into chunks and of how the samples are represented in memory (strides, order, number '
     'types, sequences); filters do not influence each other, and refused input changes nothing. The native and the '
     'pure Python implementations agree, and the reverb is the dry/wet blend of the input and the mean of its '
     'stable, distinct taps of prime lengths from the pre-delay on, which fall exponentially with their lengths and the '
     'decay time. Input signals are never modified.',
     ['inputs', 'histories'],
     'all filter lengths, gains, chunk sequences, input representations and signals (for the Python fallback: chunks '
     'up to the filter length)',
     'Tests filter one impulse with one length; chunk boundaries, wrap-around and memory layouts are not varied.',
     ['klang/audio/filters.py', 'klang/audio/_filters.c', 'klang/audio/effects.py'],
     [('native ring buffer filters', 'klang/audio/_filters.c'),
      ('Python fallback', 'klang/audio/filters.py'), ('reverb', 'klang/audio/effects.py:Reverb')],
     ['returned sample arrays', 'input arrays after the call'],
     MON + 'differential monitor against the sample-wise difference equation over random chunkings and layouts',
     'Held on the random streams executed (up to about ten thousand samples per case).')

prop('C07', 'The native audio code is memory safe and leaks nothing for any arguments',
     'Whatever arguments, attribute values, call orders or repeated initialisations the native envelope and filter '
     'types are given, they either compute their result or raise an ordinary Python exception: no invalid memory '
     'access, no undefined behaviour, no process exit, no corrupted error state. Neither successful nor failing calls '
     'leak memory or references, and results are fresh arrays of the requested size.',
     ['inputs', 'histories'],
     'all sequences of calls to the native types with arbitrary Python objects as arguments',
     'Tests call the types with a few valid arguments and cannot see silent out-of-bounds access or leaks.',
     ['klang/audio/_envelope.c', 'klang/audio/_filters.c'],
     [('argument parsing and array conversion', 'klang/audio/_filters.c:parse_input_array'),
      ('object life cycle', 'klang/audio/_filters.c:RingBufferFilter_new'),
      ('constructor flags', 'klang/audio/_envelope.c:Envelope_init')],
     ['sanitizer reports', 'heap size', 'reference counts', 'exceptions'],
     'AddressSanitizer + UndefinedBehaviorSanitizer build under hostile call sequences, with refcount and heap '
     'growth monitors',
     'Clean sanitizer runs over tens of thousands of native calls; red-zone tools miss some intra-object errors.')

prop('C08', 'Envelopes stay in range and follow the gate through their stages',
     'Envelope output always stays within [0, 1]. While the gate is on it rises monotonically to 1 in about the attack '
     'time, falls to the sustain level in about the decay time and holds it; when the gate goes off it falls '
     'monotonically from its current value to 0 and stays silent; retrigger and loop restart the stages as documented '
     'and an unchanged gate restarts nothing. The active flag is true exactly while the envelope is in a stage. The '
     'output does not depend on how it is cut into buffers, refused parameters change nothing, copies start fresh with '
     'the same parameters, and the block envelopes (ADSR, AR, D, R) follow their trigger messages. The pure Python '
     'fallback gives the same guarantees at buffer granularity.',
     ['inputs', 'histories'],
     'all parameters, all histories of gate and parameter changes and sample requests, all buffer sizes',
     'Tests look at a few fixed gate patterns and plots; the native state machine has no test for loop/retrigger '
     'combinations, parameter changes or chunking.',
     ['klang/audio/_envelope.c', 'klang/audio/envelope.py', 'klang/audio/envelopes.py'],
     [('native state machine', 'klang/audio/_envelope.c:sample'),
      ('Python stages', 'klang/audio/envelope.py:Envelope.sample'),
      ('block envelopes', 'klang/audio/envelopes.py:Envelope')],
     ['every sample', 'active flag', 'attributes'],
     MON + 'a nondeterministic state machine monitor over every sample, built on the closed exponential form',
     'Held on the random parameters and gate histories executed; threshold decisions within 1e-9 accept both sides.')

prop('C09', 'Oscillators keep their phase, frequency and range across buffers',
     'The signal of an oscillator is its wave function of a phase which advances by exactly the frequency - constant, '
     'switched, note valued or given per sample - over any number of buffers, staying within one turn, without jumps; copies '
     'continue like the original. Wave functions have the documented shape and range for every phase, LFOs map them '
     'exactly onto their output range, pulse width oscillators spend exactly the duty cycle of each period high, FM '
     'adds intensity times the modulator to the phase, chirps sweep continuously to their end frequency and stay '
     'there. Frequency inputs and delivered buffers are not modified.',
     ['inputs', 'histories'],
     'all frequency histories, start phases, wave functions, ranges, duty cycles and numbers of buffers',
     'Tests look at one buffer of one frequency; LFO, PWM, FM, chirper blocks and the wave functions are not tested.',
     ['klang/audio/oscillators.py', 'klang/audio/waves.py', 'klang/math.py'],
     [('phase accumulation', 'klang/audio/oscillators.py:sample_phase'),
      ('chirp', 'klang/audio/oscillators.py:chirp_phase'), ('wave functions', 'klang/audio/waves.py')],
     ['phases seen by an identity wave function', 'output buffers'],
     MON + 'phases recorded through an identity wave function compared on the circle with the running sum of the '
     'frequencies',
     'Held on the random frequency histories executed, up to a phase tolerance of 1e-6.')

prop('C10', 'Sample playback delivers every sample once, in order and in its channel',
     'A sample container plays exactly the samples of its trimmed region, in order, none lost, repeated or swapped '
     'between channels, whatever the read sizes; looping continues seamlessly at the start of the region; rewinding, '
     're-trimming and speed changes act from the current position, and impossible trims are refused. All resampling '
     'modes read the recording this way at any rate and speed. Audio file blocks play the whole file in the layout of '
     'the network, keep their position while paused, are silent when not playing and stop exactly after the last '
     'sample.',
     ['inputs', 'histories'],
     'all recordings, channel counts, rates, trims, speeds, modes and sequences of reads and transport operations',
     'Tests check chunk lengths with identical channels, so reordered, lost or transposed samples go unnoticed.',
     ['klang/audio/sampling.py', 'klang/audio/wavfile.py'],
     [('playback position', 'klang/audio/sampling.py:Sample.callback'),
      ('low fidelity resampling', 'klang/audio/sampling.py:CrudeResampler.read'),
      ('transport', 'klang/audio/sampling.py:AudioFile')],
     ['delivered frames (unique sample values)', 'playing flag'],
     MON + 'unique samples compared with a list model, resampled streams with a twin resampler fed by the model',
     'Held on random recordings and transport histories; bounded jitter is accepted for the crude resamplers.')

prop('C11', 'Every note that starts also ends: one note-off per note-on',
     'Through note lengtheners, note limiters, message mixers, arpeggiators and chains of them every note-on is '
     'forwarded once and in order and answered by exactly one note-off of the same note - after the note duration, when '
     'the limit of simultaneous notes is exceeded (oldest first), or with the next arpeggio step - and no note-off comes '
     'without its note-on. Note-offs precede note-ons of the same buffer. No more notes than the limit sound at once. '
     'An arpeggiator plays one held note per interval, no note which is not held, and ends its last note when nothing '
     'is held anymore.',
     ['inputs', 'histories', 'schedules'],
     'all note streams (same pitches, simultaneous, overlapping), durations, limits, intervals and clock histories '
     '(regular, stalled, jumping)',
     'Stuck and doubled notes depend on the history of overlapping notes and clock times; tests play single notes.',
     ['klang/note_effects.py', 'klang/arpeggiator.py'],
     [('pending note-offs', 'klang/note_effects.py:NoteLengthener.outdated_notes'),
      ('active notes', 'klang/note_effects.py:MaxNotes.update'),
      ('last note', 'klang/arpeggiator.py:Arpeggiator.update')],
     ['messages at the outputs', 'global clock'],
     MON + 'on-line trace specification over the output messages (each on matched to its off by identity and time)',
     'Held on the random note streams and clock histories executed; the handling of explicit note-offs by MaxNotes is '
     'left open.')

prop('C12', 'The sequencer plays every step once, in order and in time',
     'Every channel of a sequencer plays the steps of its pattern (pitches, rests, chords) in order, none missed or '
     'repeated, round after round. Each step starts in the first buffer at or after its ideal time computed from tempo, '
     'beat value and grid and is ended after the note length; channels of different lengths run independently and are '
     'routed to their own or the common output. A micro rhythm moves the steps to its note boundaries without changing '
     'their order, number or the loop duration (one buffer of latency), its phase warp is monotone, maps the circle '
     'onto itself and is blended with the straight rhythm by the phrasing. Switching micro rhythms never loses steps '
     'and leaves no connections behind; after a reset the steps are in time again.',
     ['inputs', 'histories', 'schedules'],
     'all patterns, numbers of channels, tempos, grids, note lengths, micro rhythms, phrasings and switching histories',
     'Missed or shifted steps depend on accumulated phase rounding over many rounds; tests check index arithmetic for a '
     'few phases.',
     ['klang/sequencer.py', 'klang/music/rhythm.py', 'klang/audio/oscillators.py', 'klang/music/tempo.py'],
     [('edge detection', 'klang/sequencer.py:PizzaSlicer.update'),
      ('phase warp', 'klang/music/rhythm.py:MicroRhyhtm.warp'),
      ('rhythm insert', 'klang/sequencer.py:Sequence.apply_micro_rhythm')],
     ['messages at the outputs', 'global clock', 'warped phases'],
     MON + 'onset times of all note messages compared on-line with ideal times from exact tempo arithmetic',
     'Held on the random sequencers executed (steps of at least two buffers); onsets within 1 us of a buffer border '
     'accept both buffers.')

prop('C13', 'Arpeggios play the held notes in their order through every change',
     'An arpeggio plays its notes, sorted by pitch and without duplicate pitches, in the cyclic order it was created '
     'with (up, down, upDown, downUp, alternating; random: one shuffled round repeated until the notes change, every '
     'note once per round). Adding and removing notes at any time keeps the position in the cycle, never fails, and '
     'only notes which are held are played; removing a missing pitch and unknown orders are refused; an empty arpeggio '
     'delivers nothing. The arpeggiator block plays one step per interval.',
     ['inputs', 'histories'],
     'all orders and histories of added, removed and played notes',
     'The position after notes were removed in the middle of a round depends on the whole history; tests check static '
     'permutations.',
     ['klang/arpeggiator.py'],
     [('position', 'klang/arpeggiator.py:Arpeggio.wrap_current'),
      ('permutation', 'klang/arpeggiator.py:arpeggio_index_permutation'),
      ('step', 'klang/arpeggiator.py:Arpeggiator.update')],
     ['delivered notes (unique frequencies)', 'note list'],
     MON + 'every delivered note compared on-line with a sorted list model with position',
     'Held on the random histories executed.')

prop('C14', 'Synthesizers sound exactly the held notes',
     'A polyphonic synthesizer sounds exactly the notes which are held: each note-on gets its own voice as long as '
     'there are at most 24 notes, a note-off ends all voices of its pitch and no other one - also within one buffer - '
     'beyond the limit the latest notes are played and nothing sounds that is not held, and after all note-offs it is '
     'silent. Its output is the mean of its voices. A monophonic synthesizer plays the held note its policy (newest, '
     'oldest, lowest, highest) selects, returns to the remaining ones and is silent without held notes. A voice is '
     'oscillator times envelope times velocity, copies are independent. Drum synthesizers are silent before the first '
     'note, stay within [-1, 1] and decay continuously; the hi-hat is noise below its envelope; the pitch of the kick falls '
     'exponentially from note to note alike.',
     ['inputs', 'histories', 'schedules'],
     'all note histories (chords, repeated pitches, several messages per buffer, more notes than voices), policies, '
     'voices and envelopes',
     'Stuck, stolen and missing voices depend on note histories and on which messages share a buffer; tests only check '
     'the scheduler with four fixed sequences.',
     ['klang/audio/synthesizer.py', 'klang/audio/voices.py'],
     [('voice allocation', 'klang/audio/synthesizer.py:PolyphonicSynthesizer.process_note'),
      ('note choice', 'klang/audio/synthesizer.py:NoteScheduler'),
      ('voice', 'klang/audio/voices.py:Voice.process_incoming_notes')],
     ['mixed signal decoded into the set of sounding notes', 'active flag of voices'],
     MON + 'notes encoded as powers of two, so that the sounding set is decoded from the output and compared on-line '
     'with the set of held notes',
     'Held on the random note histories executed; which of the older voices is stolen is left open.')

prop('C15', 'The engine renders every buffer once, into the right channels and file',
     'Running a network - offline, through the sound card or without audio - executes every block once per buffer with '
     'the clock at the start time of the buffer, for exactly the requested duration (whole buffers). Every sample of '
     'every connected signal arrives once, in order, in its output channel (mono, stereo and multi channel signals '
     'fill the channels in input order), audio input samples reach the network, the fade-out is a linear ramp ending '
     'at the duration, and the WAV file contains exactly what was played, normalised to 16 bit. Too few channels abort '
     'with silence and a logged error; interrupts shut the stream down cleanly and still write the file; impossible '
     'set-ups are refused.',
     ['inputs', 'histories', 'schedules'],
     'all networks feeding the audio output, channel numbers, durations, fade-outs, card schedules, interrupts and '
     'mismatches',
     'The engine has no tests at all; lost buffers, swapped channels or wrong clocks only show in the recorded '
     'output.',
     ['klang/audio/klanggeber.py', 'klang/klang.py', 'klang/audio/wavfile.py', 'klang/progress_bar.py'],
     [('stream callback', 'klang/audio/klanggeber.py:run_audio_engine'),
      ('channel routing', 'klang/audio/klanggeber.py:Dac.iterate_channels'),
      ('non-audio loop', 'klang/klang.py:run_klang')],
     ['buffers handed to the (stand-in) sound card', 'WAV file', 'clock values seen by blocks', 'stream calls'],
     MON + 'sources with unique samples, a stand-in sound card driving the real callback with random scheduling and '
     'fault injection, and an off-line check of recorded buffers, files and clock log',
     'Held on the random engine runs executed; PortAudio itself is replaced by a stand-in.')

prop('C16', 'Mixers add up their inputs and panning keeps the level',
     'The output of a mixer is the mean over its channels of gain times signal (stereo: times the pan amplitudes), for '
     'channels added by constructor, add_new_channel or the + operator in any order, and for gains and pannings '
     'changed while running; with gains up to 1 it never exceeds its inputs. Panning is monotone, mirror symmetric, '
     'silent on the far side, keeps the power (constant power), the sum (linear) or their mean (mixture) constant, '
     'clips levels beyond the sides, gives the same center level for a pan law in all modes, and refuses unknown modes '
     'and positive pan laws.',
     ['inputs', 'histories'],
     'all mixers, numbers of channels, gains, pannings, modes, pan laws and building histories',
     'Tests check connections of the + operator only; no test looks at mixed samples or pan amplitudes.',
     ['klang/audio/mixer.py', 'klang/audio/panning.py', 'klang/block.py'],
     [('mix', 'klang/audio/mixer.py:StereoMixer.update'),
      ('pan amplitudes', 'klang/audio/panning.py:panning_amplitudes')],
     ['output buffers', 'amplitudes'],
     MON + 'mixed buffers compared with direct sums along random build-and-run histories; identities of the laws',
     'Held on the random mixers and levels executed.')

prop('C17', 'Effects follow their laws, sample exact over buffer borders',
     'Gain, Transformer, Subsampler, Bitcrusher, OctaveDistortion and TanhDistortion apply their function to every '
     'sample of every channel. Tremolo never amplifies, leaves the signal alone at depth 0 and follows its smoothed '
     'pulse wave; the ring modulator multiplies with an oscillator swept by its LFO; filters are linear, time '
     'invariant over buffer borders, act per channel with -3 dB at the cutoff, from 12 Hz on; the pitch shifter resamples the windowed '
     'signal; dry/wet 0 is the identity. Audio clocks have one pulse of the duty cycle per period. Splitter and '
     'combiner keep the channels. Parameters changed while running act from the next buffer without glitches, input '
     'buffers are never modified, invalid parameters are refused.',
     ['inputs', 'histories'],
     'all input signals (mono and stereo), parameters and histories of parameter changes',
     'Effects have no tests; errors at buffer borders or after parameter changes depend on filter and phase states.',
     ['klang/audio/effects.py', 'klang/audio/sync.py', 'klang/math.py', 'klang/audio/wavfile.py'],
     [('tremolo', 'klang/audio/effects.py:Tremolo.update'), ('filter', 'klang/audio/effects.py:_Filter.filter'),
      ('ring modulator', 'klang/audio/effects.py:RingModulator.update'), ('clock', 'klang/audio/sync.py:Clock.update')],
     ['output buffers seen downstream', 'read-only input buffers'],
     MON + 'whole signals compared with sample-wise reference formulas; filters bracketed by reference filters within '
     'the table resolution and by shift/scale metamorphic runs',
     'Held on the random signals and parameter histories executed; filter cutoffs up to 0.8 % (coefficient table).')

prop('C18', 'Objects sent over the network arrive unchanged, once and in order',
     'JSON values, notes and numeric arrays of any shape, memory layout and type which fit into one datagram and are '
     'sent through a courier or the network blocks arrive at the bound UDP or UNIX address unchanged in value and type, '
     'exactly once and in sending order, and nowhere else; several objects per datagram are separated, with or without '
     'white space. NetworkIn holds the latest received value (the previous one if nothing arrived), NetworkMessageIn '
     'forwards every message. Malformed datagrams (bad text, encoding, notes or arrays; empty ones) never raise out of '
     'an update and do not affect other datagrams or the objects in front of the damage.',
     ['inputs', 'histories', 'fault_sequences'],
     'all objects, arrays, datagram bytes and interleavings of sends and receives, over UDP and UNIX sockets',
     'The network module has no tests.',
     ['klang/network.py', 'klang/messages.py'],
     [('receive', 'klang/network.py:JsonCourier.receive_objects'), ('encode', 'klang/network.py:array_to_dict'),
      ('blocks', 'klang/network.py:NetworkMessageIn.update')],
     ['objects received on real sockets', 'values and messages behind the blocks'],
     MON + 'sent and received object logs over real loopback sockets are compared offline (order, exactly once, '
     'bit-wise values), with malformed datagrams injected',
     'Held on the random bursts executed; not covered: notes or arrays nested in lists or dictionaries, overload of '
     'socket queues.')

prop('C19', 'Audio survives WAV files and PCM conversions',
     'A file written by write_wave holds the audio scaled to full scale: every sample within one quantisation step, '
     'same sign, same frames, channels in order, given sampling rate and sample width, for every array layout and '
     'number type, mono as 1-D or 2-D; silence stays silent; rewriting a loaded file does not drift. load_wave reads '
     'every 16 bit file exactly and refuses other widths. Conversions between PCM and float keep level, sign and order, '
     'stay within the range, refuse wrong types and leave their argument alone.',
     ['inputs'],
     'all audio arrays (shapes, layouts, types, levels), sampling rates and 16 bit files',
     'Tests load and write a handful of files with one layout and level each.',
     ['klang/audio/wavfile.py', 'klang/math.py'],
     [('writing', 'klang/audio/wavfile.py:write_wave'), ('loading', 'klang/audio/wavfile.py:load_wave'),
      ('PCM', 'klang/audio/wavfile.py:convert_samples_to_int')],
     ['files read back with the wave module', 'converted samples'],
     MON + 'files and samples are cross checked with the independent wave module and direct arithmetic',
     'Held on the random arrays executed; unsigned PCM types and float samples outside of [-1, 1] are not covered.')

prop('C20', 'Pitches, frequencies, note names and notes agree with each other',
     'Note names and pitch numbers are each other\'s inverse, octaves and accidentals shift as in scientific pitch '
     'notation, whatever the case, anything else is refused. A temperament gives its Kammerton at A4, doubles per '
     'octave, follows its cents, elementwise for arrays, in every register; known temperaments are the ones of the '
     'table. Notes are immutable, validated, default to the tuned frequency, keep pitch and frequency when silenced, '
     'and survive dictionaries and JSON unchanged.',
     ['inputs'],
     'all names and strings, all integer pitches, all tunings and Kammertons, all notes',
     'Tests check two dozen reference names and the equal temperament.',
     ['klang/music/pitch.py', 'klang/music/tunings.py', 'klang/messages.py'],
     [('names', 'klang/music/pitch.py:note_name_2_pitch'), ('tuning', 'klang/music/tunings.py:Temperament.pitch_2_frequency'),
      ('notes', 'klang/messages.py:Note')],
     ['pitches, names, frequencies and notes returned'],
     MON + 'results for random names, strings, tunings and notes compared with the definitions',
     'Held on the random names, tunings and notes executed.')

prop('C21', 'Scales, chords and intervals: arithmetic, tables and look-up by name',
     'Scale steps, pitch classes and scale codes convert into each other without loss for all scales with a root; '
     'inversions of a chord move notes by octaves, add up, are undone by the opposite inversion and leave the chord '
     'alone. Every name of the chord, scale and interval tables leads to its row; an unambiguous abbreviation leads to '
     'the one entry it abbreviates; ambiguous and unknown names are refused with suggestions, never silently resolved.',
     ['inputs'],
     'all pitch class sets, chords, inversions, table rows and names',
     'Tests check inversions of one chord; tables and look-up are untested.',
     ['klang/music/scales.py', 'klang/music/chords.py', 'klang/music/intervals.py', 'klang/util.py'],
     [('scales', 'klang/music/scales.py:scale_2_code'), ('inversion', 'klang/music/chords.py:invert_chord'),
      ('look-up', 'klang/util.py:find_item')],
     ['scales, chords and intervals returned', 'error messages'],
     MON + 'results compared with set and sequence arithmetic and an independent reading of the data files',
     'Held on the random inputs executed. Abbreviations which do not start with the first letter of the entry are left '
     'open.')

prop('C22', 'Tempo, metre, note values and rhythm patterns follow music arithmetic',
     'Metres keep numerator and denominator, are of at most one kind (simple, compound, complex) and have the beat value '
     'of their kind; bar periods, note durations, rates and angular velocities are the exact quotients of metre, beat '
     'value and tempo, by default of the configured ones; durations in seconds and rates in Hertz pass unchanged. Dots '
     'and dedots are exact and undo each other, tuplets are worth their notes times den/num and can be copied. An '
     'Euclidian rhythm has the wanted pulses and slots and is as even as possible.',
     ['inputs'],
     'all metres, beat values, tempi, note values, tuplets, pulse and slot numbers',
     'Tests check a few metres and durations; rhythm patterns and tuplets are untested.',
     ['klang/music/tempo.py', 'klang/music/metre.py', 'klang/music/note_values.py', 'klang/music/rhythm.py'],
     [('tempo', 'klang/music/tempo.py:note_duration'), ('metre', 'klang/music/metre.py:default_beat_value'),
      ('notes', 'klang/music/note_values.py:dot_note'), ('patterns', 'klang/music/rhythm.py:euclidian_rhythm')],
     ['durations, fractions and patterns returned'],
     MON + 'results compared with exact fractions; evenness of patterns by counting pulses in all windows',
     'Held on the random arguments executed; metres with numerator 1 and more pulses than slots are left open.')

prop('C23', 'A block depends on its inputs only and never modifies what it is given',
     'For every kind of block: fed with the same inputs, a block gives the same outputs bit by bit, alone or among any '
     'number of other blocks (same or other kinds, built before, between or after, sharing templates and arguments), the '
     'first time, again, and as a deep copy made before it has run. Blocks never modify the arrays, lists and templates '
     'they are given, nor the constants shared by all blocks.',
     ['histories'],
     'all kinds of blocks, parameters, input scripts and mixtures of concurrently running blocks',
     'Tests run one block at a time, fresh, with one input.',
     ['klang/audio/', 'klang/sequencer.py', 'klang/arpeggiator.py', 'klang/note_effects.py'],
     [('shared silence', 'klang/audio/helpers.py'), ('copies of voices', 'klang/audio/synthesizer.py'),
      ('shared lists', 'klang/audio/mixer.py')],
     ['recorded outputs of instances running alone and in company', 'digests of inputs and shared constants'],
     MON + 'differential recording: the same input script replayed alone, in company, again and on copies has to be '
     'equal bit by bit',
     'Held on the random scripts executed; blocks with outside effects (dac, network, MIDI) are not part of it.')

prop('C24', 'Keys and notes reach network and MIDI port once, in order, as played',
     'Every press of a musical key sends one note-on (pitch of key and octave, current velocity and tuning) and its '
     'release one note-off of the very same pitch, whatever was changed in between; auto-repeat sends nothing; octave, '
     'velocity and number keys change octave, velocity (within .1 and 1) and tuning; keys out of the pitch range are '
     'mute; all other keys are relayed in order if asked for. No key ends the keyboard. The MIDI output sends each note '
     'once, in order, on its channel, note-ons as note-ons, velocities proportional and monotonous.',
     ['histories', 'schedules'],
     'all sequences of key events and notes, channels, initial tunings',
     'Keyboard and MIDI output have no tests at all.',
     ['klang/keyboard.py', 'klang/midi.py'],
     [('debouncing', 'klang/keyboard.py:Keyboard.on_press'), ('notes', 'klang/keyboard.py:MusicalKeyboard.play_note'),
      ('MIDI', 'klang/midi.py:note_to_midi_message')],
     ['messages sent per key event', 'life of the listener thread', 'bytes sent to the MIDI port'],
     MON + 'messages of scripted key events (directly and through pynput\'s listener thread) compared with an independent '
     'model of the player\'s expectation; MIDI bytes decoded',
     'Held on the random event sequences executed; whether releases of the control keys are relayed is left open, as is '
     'the pressed state of special keys after they were sent.')

prop('C25', 'Arithmetic helpers: phases, ranges, mixes, mappings, integers, primes',
     'Wrapped phases lie within half a turn and differ by whole turns; clipping hits its limits exactly, normalizing, '
     'blending and linear mappings hit theirs up to rounding; they leave their arguments alone; powers of two, dyadic '
     'fractions, divisibility and common multiples are exact for all integers; primality, sieve, next primes (within and '
     'beyond the cache, whatever was searched before) and upper bounds are exact. Subplot layouts hold all plots; tick '
     'labels are worth their ticks.',
     ['inputs', 'histories'],
     'all numbers, arrays, ranges, limits and sequences of prime searches',
     'Tests check one mapping and the primes below 100.',
     ['klang/math.py', 'klang/primes.py', 'klang/plotting.py'],
     [('phases', 'klang/math.py:wrap'), ('mapping', 'klang/math.py:linear_mapping'), ('primes', 'klang/primes.py:find_next_prime'),
      ('ticks', 'klang/plotting.py:fraction_ticks')],
     ['returned numbers', 'prime cache'],
     MON + 'results compared with exact rational arithmetic and a deterministic Miller-Rabin test',
     'Held on the random and boundary arguments executed; up to float rounding.')

prop('C26', 'Sheet music text shows every note in order in its bar; progress bars add up',
     'Formatted rhythms are rectangular texts which can be read back: every note once, in order, with head, dot and stem '
     'of its value; bar lines exactly between bars; beams join notes shorter than a quarter within a group of the metre '
     'and nothing else; equal notes take equal space, longer notes no less; tuplets show all their notes and their '
     'ratio (short labels one number only if it is the usual one). Time signatures show metre or grouping. Progress bars hand out the range once, grow evenly from empty to full and '
     'tell the remaining time.',
     ['inputs'],
     'all plain and dotted rhythms down to 1/16, metres with a default grouping, groupings, nested tuplets, text blocks',
     'Note formatting and progress bars are untested.',
     ['klang/music/note_formatting.py', 'klang/progress_bar.py'],
     [('notes', 'klang/music/note_formatting.py:format_notes'), ('beams', 'klang/music/note_formatting.py:_beam_needs_to_end'),
      ('progress', 'klang/progress_bar.py:ProgressBar.render')],
     ['formatted texts', 'output stream of the progress bar'],
     MON + 'an independent reader parses the text back and compares it with the rhythm; virtual clock for the progress bar',
     'Held on the random rhythms executed; double dotted notes are left open.')

prop('C27', 'Chord, scale and tuning tables are what their names and sources say',
     'Every chord of the table ascends by less than an octave from note to note, every scale fills one octave exactly, '
     'every tuning ascends and doubles after an octave; chords and scales with a common meaning are spelled accordingly, '
     'intervals are the ratios of their names (common ones, chains of fifths, prime limits, complements of the octave). '
     'Lists scraped from web pages become the chords and scales written there (synonyms, alternatives, any number of '
     'octaves, accidentals; unsupported rows are left out) and survive being printed as CSV and loaded again.',
     ['inputs'],
     'all table rows; all pages with random lists of chords and scales',
     'Tables and scraping are untested.',
     ['klang/scraping.py', 'klang/music/chords.py', 'klang/music/scales.py', 'klang/music/tunings.py'],
     [('chord lists', 'klang/scraping.py:pitch_classes_2_chord'), ('scale lists', 'klang/scraping.py:parse_degrees'),
      ('tables', 'klang/music/data/chords.csv')],
     ['chords, scales and tunings returned', 'CSV printed'],
     MON + 'rows compared with music theory; scraped random pages (HTTP replaced) compared with what was written into them',
     'Held on the rows and random pages executed; the live web pages are out of reach.')

prop('C28', 'Looking at blocks changes nothing and shows the truth',
     'Printing a block or connection, listing its neighbors, connections or execution order works in every state, names '
     'its kind, and leaves all later outputs exactly as if nobody had looked. What is printed is true: frequencies (also '
     'note valued or varying), numbers of inputs and outputs, connected or not, owner, names, patterns, tempo, grid, '
     'envelope parameters, playing position and state, lengths, ratios of tuplets, tunings, numbered execution order. '
     'Plots have the corners of a scale at the labels of its pitches on a clockwise circle of fifths, one line per beat of '
     'a metre, and tick labels worth their ticks.',
     ['inputs', 'histories'],
     'all kinds of blocks in all states of their life; all scales, metres and ticks plotted',
     'Descriptions and plots are untested.',
     ['klang/block.py', 'klang/connections.py', 'klang/execution.py', 'klang/audio/', 'klang/music/', 'klang/plotting.py'],
     [('blocks', 'klang/block.py:Block.__str__'), ('connections', 'klang/connections.py:str_function'),
      ('oscillators', 'klang/audio/oscillators.py:Phasor.__str__'),
      ('plots', 'klang/plotting.py:plot_scale_in_circle_of_fifth')],
     ['descriptions', 'outputs after looking', 'polygons, lines and labels drawn'],
     MON + 'recorded outputs of a looked-at run equal those of a run alone bit by bit; numbers and names read back from '
     'descriptions and plots',
     'Held on the random states executed; the wording of descriptions is left open.')
prop('C29', 'A patch renders what its blocks and connections say, however it is written down',
     'What run_klang renders of a patch without feedback depends on its blocks and connections alone: every block runs once '
     'per buffer and plays exactly what it would play alone on what it receives, every input shows what its source has '
     'played in the same cycle, the file holds the channels of the sound card. The result stays the same, bit by bit, for '
     'any order of creating and connecting, connect() or the operators | and +, parts bundled in a composite, any starting '
     'blocks, further listeners, other patches before or beside, and is a prefix of longer renderings. Sums of anything but audio '
     'are refused and leave no connections. The example patches '
     'run, play well-formed note streams and finite sound, and render the same again.',
     ['inputs', 'histories', 'configurations'],
     'random feedback-free patches of all kinds of blocks in all these notations; all audio examples of the repository',
     'Tests run single blocks and tiny networks; whole patches are only listened to.',
     ['klang/klang.py', 'klang/execution.py', 'klang/block.py', 'klang/composite.py', 'klang/connections.py',
      'klang/audio/', 'klang/sequencer.py', 'klang/arpeggiator.py', 'examples/'],
     [('main loop', 'klang/klang.py:run_klang'), ('order', 'klang/execution.py:determine_execution_order'),
      ('operators', 'klang/block.py:mix_operator'), ('bundles', 'klang/composite.py:Composite.update_internal_exec_order')],
     ['inputs and outputs of all blocks in all cycles', 'rendered files', 'logged warnings', 'note balances of the examples'],
     MON + 'recordings of all blocks compared bit by bit between notations, with replays of every block alone on its '
     'recorded inputs, and along all connections',
     'Held on the random patches executed; feedback loops are C01 and C02; one noise source per patch.')
