#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

CS = "src/sounds/complex_sound.rs"; SS = "src/sounds/simple_sound.rs"; SB = "src/sounds/standard_block.rs"
CH = "src/channels/standard_channel.rs"; RS = "src/utils/mono_resampler.rs"; UT = "src/utils/mod.rs"; SF = "src/sample_format/"

p("C01", "A complex sound runs every block once, after whatever feeds it",
  "At every point of a complex sound's edit history, one processing pass runs each of its blocks exactly once, the input gain first and the output gain last, in exactly the order the sound reports for its nodes. A block that feeds another without being part of a cycle with it runs before it. Connections into the input gain and out of the output gain are feedback: they neither constrain the order nor make a cycle.",
  "histories inputs", "every sequence of block additions, connections (repeated, cyclic, self-loops) and disconnections, and every graph they reach",
  "test_complex_sounds builds one three-block chain and asserts nothing; diamonds, skip connections, cycles and edits are never built, and the order is never read.",
  CS, [("process_order", CS + ": ComplexSound::process_order"), ("Sound::process loop", CS + ": impl Sound for ComplexSound")],
  [("process_order", "the order of the next pass", CS), ("graph", "blocks and connections", CS)],
  ["ComplexSound::get_nodes", "calls arriving at the contained blocks"])
p("C02", "Samples flow along a complex sound's connections exactly once",
  "Every sample a block of a complex sound produces is delivered exactly once to each block connected downstream of it at that moment (connecting twice is connecting once), and is consumed, summed with whatever else arrived, the next time that block runs: in the same pass if it has yet to run, otherwise in the next pass. The sound's input, scaled by the input gain together with what is connected into it, enters the same way, and the result of the pass is what the output gain produces. Nothing is delivered over connections that were removed, and nothing delivered is lost when the graph is edited.",
  "histories inputs", "every graph with up to a few dozen blocks, every interleaving of edits and passes, every input sequence and gain",
  "The one complex-sound test feeds noise through a chain and checks no sample; fan-in, fan-out, feedback and edits between passes are never exercised.",
  CS + " " + SB, [("prime_input/neighbors", CS + ": Sound::process"), ("update_edge/find_edge", CS + ": add_connection, remove_connection"), ("input accumulation", SB)],
  [("input", "sum primed since the block last ran", SB)], ["ComplexSound::process result", "inputs seen by contained modifiers"])
p("C03", "Pause freezes a sound and mute only silences it",
  "For simple and complex sounds alike, every toggle flips exactly one of the pause and mute states, and both read back as last toggled. While paused, processing returns silence and nothing inside advances or accumulates, so resuming continues with exactly the sample that pausing interrupted. While muted, processing returns silence but everything inside advances exactly as if unmuted; pause wins when both are set.",
  "histories inputs", "every interleaving of pause and mute toggles with processing, for every sound built from any blocks",
  "No test ever pauses or mutes a sound.",
  SS + " " + CS + " src/sounds/mod.rs", [("is_paused early return", SS + ", " + CS), ("is_muted after processing", SS + ", " + CS)],
  [("is_paused", "frozen", CS), ("is_muted", "silenced", CS)], ["Sound::process results", "calls arriving at contained blocks"])
p("C04", "A simple sound is its generator and modifiers in series",
  "A simple sound feeds its input times the input gain to its generator block, the result through every modifier block in the order they were added (one at a time or as a list), each run exactly once per sample, and returns the last result times the output gain. Gains read back as set and changing one takes effect with the next sample and changes nothing else.",
  "histories inputs programs", "every chain length and block mix, every interleaving of additions, gain changes and processing, every input",
  "test_simple_sounds runs one two-filter chain on noise and asserts nothing.",
  SS, [("modifier loop", SS + ": Sound::process"), ("push/extend", SS + ": add_modifier, extend_modifiers")],
  [("modifier_list", "series order", SS), ("input_gain/output_gain", "linear gains", SS)], ["SimpleSound::process", "get_input_gain/get_output_gain"])
p("C05", "A block accumulates primed input and consumes it once",
  "Processing a standard block runs its generator once, runs its modifier once on the sum of everything primed since the block last ran (0 if nothing was), and returns its interactor applied to the generator's sample first and the modifier's sample second; the primed input is then empty. A block built from a generator alone returns the generator's samples, one built from a modifier alone returns the modifier's, and the default interactor multiplies the two.",
  "histories inputs", "every interleaving of priming and processing, every interactor including stateful ones, every sample",
  "test_blocks primes once per process and only with noise; multiple primes, missing primes and custom interactors are never run.",
  SB, [("prime_input/process", SB + ": impl Block for StandardBlock"), ("constructors", SB + ": new, from_generator, from_modifier")],
  [("input", "sum primed since last run", SB)], ["Block::process", "calls arriving at the contained generator, modifier and interactor"])
p("C06", "A channel's output is the gain-scaled sum of its sounds",
  "Processing a channel yields exactly as many samples as its process time holds (10 ms until set, truncated to whole samples), each being the channel's current gain times the sum of one fresh sample from every sound currently in it (each converted to the channel's sample format). Nothing from earlier passes, from removed sounds or from before a gain change leaks in, and each sound advances by exactly one sample per output sample, fed with silence.",
  "histories inputs configurations", "every interleaving of adding and removing sounds, gain and process-time changes and passes, mono and stereo, every duration",
  "No test constructs a channel.",
  CH + " src/channels/mod.rs", [("process", CH), ("set_process_time", CH), ("add_sound/remove_sound", CH)],
  [("output", "samples of the last pass", CH), ("sounds", "registered sounds by id", CH)], ["Channel::get_output", "calls arriving at contained sounds"])
p("C07", "Channel ids are unique and registration follows membership",
  "Each sound added to a channel is registered with an id no sound of that channel ever had, before its first sample is drawn. Removing an id removes exactly that sound and unregisters it, removing an id that is not there changes nothing, and simple and complex sounds report the id they were last registered with, or none once unregistered.",
  "histories", "every interleaving of additions and removals, including unknown and already removed ids, over several channels",
  "No test constructs a channel or registers a sound.",
  CH + " " + SS + " " + CS, [("get_id counter", CH), ("register/unregister", SS + ", " + CS)],
  [("id_counter", "next id", CH), ("id", "registration of a sound", SS)], ["Sound::get_id", "register/unregister calls arriving at sounds"])
p("C08", "Clones start fresh and share nothing",
  "Cloning an oscillator, sample player or modifier at any point of its life gives an object that behaves like one newly constructed with the original's current parameters: same frequency, cutoff, gains, delay, track and speed, but starting from its initial state. Using, changing or dropping either afterwards never affects the other.",
  "histories inputs", "every clonable generator and modifier, every history before the clone, every interleaving of the two afterwards",
  "No test clones anything.",
  "src/generators/sawtooth.rs src/generators/sine.rs src/generators/square.rs src/generators/triangle.rs src/generators/mono_wav.rs src/modifiers/adsr.rs src/modifiers/bandpass.rs src/modifiers/delay.rs src/modifiers/echo.rs src/modifiers/envelope.rs src/modifiers/generic.rs src/modifiers/highpass.rs src/modifiers/lowpass.rs " + RS,
  [("impl Clone", "every generator and modifier")], [], ["process of original and clone"])
p("C09", "Oscillators follow their phase through any frequency history",
  "For positive frequencies up to half the sampling rate, a sine, sawtooth, square or triangle generator starts at phase 0 and outputs its waveform at the phase accumulated so far, one sample advancing the phase by the frequency set at that time over the sampling rate; changing the frequency never makes the phase jump. Sawtooth and triangle start at 0 rising, square starts high and is high for the first half of its cycle. The frequency always reads back as last set.",
  "histories inputs", "every frequency in (0, 24000] Hz, every sequence of frequency changes interleaved with samples, any number of samples",
  "The tests run one period at 440 Hz from phase 0 and never change the frequency.",
  "src/generators/sine.rs src/generators/sawtooth.rs src/generators/square.rs src/generators/triangle.rs src/generators/mod.rs",
  [("phase accumulation and wrap", "each generator's process"), ("set_frequency", "each generator")],
  [("ind/inc", "phase and increment", "src/generators/*.rs")], ["Generator::process", "FreqMod::get_frequency"])
p("C10", "Generators never leave [-1, 1]",
  "Whatever positive frequency up to half the sampling rate is set and however often it changes, every sample of the sine, sawtooth, square and triangle generators is a number within [-1, 1], the square's being exactly -1 or 1; every sample of the noise generator lies within [-1, 1) on both sides of 0 without favouring one, and the zero generator yields exactly 0.",
  "histories inputs", "every frequency in (0, 24000] Hz, every history of changes, arbitrarily many samples",
  "The tests look at one period of 440 Hz; test_noise is empty.",
  "src/generators/sine.rs src/generators/sawtooth.rs src/generators/square.rs src/generators/triangle.rs src/generators/noise.rs src/generators/zero.rs",
  [("wraparound", "each generator's process"), ("scaling of noise", "src/generators/noise.rs")], [], ["Generator::process"])
p("C11", "An ADSR goes through its stages in order and always falls silent",
  "An ADSR scales its input by a gain that rises in a straight line from 0 to 1 over the attack time, falls in a straight line to the sustain level (clamped to at most 0 dB) over the decay time, holds there for as long as it is not released, and after release falls in a straight line from wherever it is to 0 over the release time and stays 0. Stage times are met to within a sample or one percent, for times from zero to twenty seconds; the gain is always a number in [0, 1] and releasing again changes nothing.",
  "histories inputs", "every stage time in [0, 1] s, every sustain level including silence, release at every point, every input",
  "test_adsr runs one configuration, releases during sustain and asserts nothing.",
  "src/modifiers/adsr.rs", [("stage machine", "src/modifiers/adsr.rs: Modifier::process"), ("release", "src/modifiers/adsr.rs: ADSR::release")],
  [("state", "stage", "src/modifiers/adsr.rs"), ("g", "gain", "src/modifiers/adsr.rs")], ["ADSR::process"])
p("C12", "A delay returns its input exactly its delay later",
  "A delay of any duration outputs silence for its length in samples, rounded to the nearest sample, and from then on exactly the samples put in, in order and unchanged, forever; a delay of zero passes input through at once. It reports that length as its delay at all times.",
  "histories inputs", "every duration from zero up, every input sequence",
  "test_delay runs noise through one delay and asserts nothing.",
  "src/modifiers/delay.rs", [("queue", "src/modifiers/delay.rs")], [("delay", "samples in flight", "src/modifiers/delay.rs")], ["Delay::process", "Delay::get_delay"])
p("C13", "An echo repeats its output at its delay, scaled by its feedback",
  "Every output sample of an echo is the input plus its feedback amount times the output it produced its delay earlier (0 before it has produced that much), the delay being its duration rounded to the nearest sample and at least one sample. This holds for every duration, including zero, and every feedback amount.",
  "histories inputs", "every duration from zero up, every feedback amount, every input sequence",
  "test_echo runs one configuration and asserts nothing.",
  "src/modifiers/echo.rs", [("feedback queue", "src/modifiers/echo.rs")], [("delay", "past outputs", "src/modifiers/echo.rs")], ["Echo::process"])
p("C14", "A generic filter computes its difference equation",
  "Every output of a generic filter is the sum, over its zero terms (i, c), of c times the input i samples ago, plus the sum, over its pole terms (j, c), of c times the output j+1 samples ago, with everything before the first sample being 0. This holds for any number of terms, in any order, with any indices, repeated or missing.",
  "inputs configurations histories", "every list of zero and pole terms, every input sequence",
  "test_generic runs one configuration and asserts nothing.",
  "src/modifiers/generic.rs", [("histories", "src/modifiers/generic.rs: Generic::new, process")], [("inputs/outputs", "past samples", "src/modifiers/generic.rs")], ["Generic::process"])
p("C15", "Low and high pass filters realise their Butterworth design at all times",
  "At every sample, a low or high pass filter's output follows the third-order resonant Butterworth recurrence for its current cutoff (at most half the sampling rate) and resonance (clamped to [0, 1]) applied to its past inputs and outputs, whatever changes were made before; cutoff and resonance read back as clamped. For every cutoff from 1 Hz up it is stable: bounded input gives bounded output, a constant settles to itself through the low pass and to 0 through the high pass.",
  "histories inputs configurations", "every cutoff of at least 1 Hz and resonance, every interleaving of parameter changes and samples",
  "The tests run 440 Hz on noise and assert nothing.",
  "src/modifiers/lowpass.rs src/modifiers/highpass.rs", [("coefficients", "reset in both files"), ("recurrence", "process in both files")],
  [("coeff/outs", "design and past outputs", "src/modifiers/lowpass.rs")], ["process", "get_central_frequency", "get_resonance"])
p("C16", "A band pass keeps centre, quality and corners consistent and filters by them",
  "However a band pass was configured (centre and quality, or corners in either order), its centre is the geometric mean of its corners, its quality the centre over their distance, corners read back lower first, and each setter changes only what it names. At every sample the output follows the recurrence of a first-order high pass at the lower corner in series with a first-order low pass at the upper corner, applied to its past inputs and outputs; a constant input settles to 0.",
  "histories inputs configurations", "every pair of corners within (1 Hz, half the sampling rate), every interleaving of setters and samples",
  "test_bandpass builds three filters, runs noise and asserts nothing; no getter or setter is called.",
  "src/modifiers/bandpass.rs", [("get_corner_frequencies/reset", "src/modifiers/bandpass.rs"), ("process", "src/modifiers/bandpass.rs")],
  [("central_f/quality", "configuration", "src/modifiers/bandpass.rs")], ["getters", "BandPass::process"])
p("C17", "An envelope follower tracks the magnitude of its input",
  "At every sample an envelope follower's output moves towards the input's magnitude by its one-pole recurrence, using the upper frequency when the magnitude is above the current output and the lower one otherwise. The output depends only on input magnitudes and settles to the magnitude of a constant input; while both frequencies are at most a quarter of the sampling rate it is never negative and never exceeds the largest magnitude seen.",
  "histories inputs configurations", "every pair of frequencies below half the sampling rate, every input sequence",
  "test_envelope runs one configuration and asserts nothing.",
  "src/modifiers/envelope.rs", [("attack/release branches", "src/modifiers/envelope.rs: process")], [("x1/y1", "previous magnitude source and output", "src/modifiers/envelope.rs")], ["Envelope::process"])
p("C18", "A sample player interpolates its track at the accumulated position",
  "Without looping, a mono resampler starts at the first sample, each sample returned being the track linearly interpolated at the current position (the last sample held), and advances by source rate over engine rate times the speed set at that time; past the end of the track it returns silence forever. This holds for tracks of any length including empty ones, any source rate, and any history of non-negative speeds, which read back as set.",
  "histories inputs configurations", "every track up to tens of millions of samples, every rate and speed history",
  "test_resampler plays at most seven samples of one four-sample track and never past its end.",
  RS + " src/generators/mono_wav.rs", [("position and interpolation", RS + ": process")], [("ind", "position", RS)], ["MonoResampler::process", "get_playback_speed"])
p("C19", "A looping sample player stays in its loop, seamlessly",
  "With a loop from sample s to sample e (given in either order, both non-zero or s = 0; an end beyond the track meaning the track's end), playback runs from the track's start and, on reaching e, continues from s displaced by however far it overshot, so it never ends and never reads outside the track, at any rate and speed including steps larger than the loop. Between the loop's last sample and its end it interpolates towards sample s. A loop containing no samples means no looping.",
  "histories inputs configurations", "every track, loop bounds (also reversed, beyond the track, empty), rate and speed history, arbitrarily many samples",
  "No test loops.",
  RS, [("loop wrap", RS + ": process"), ("bounds", RS + ": new")], [("loop_start/loop_end", "loop bounds", RS), ("ind", "position", RS)], ["MonoResampler::process"])
p("C20", "A track written to WAV reads back as it was",
  "Tracks with samples in [-1, 1], written at 8, 16 or 24 bits with any number of channels a WAV header can hold, produce a well-formed PCM WAV file with that channel count, bit depth and the engine's sampling rate, and read back with the same number of channels and samples, each channel's samples in order and within one quantisation step of the original, negative ones included. Reading any PCM WAV file of those depths yields its header and, per channel, its samples scaled to full scale.",
  "inputs configurations", "every channel count, length (zero and odd sizes included), depth and sample value in range; every such file of any sampling rate",
  "The tests write a few files and never read one back.",
  UT + " " + SF + "mod.rs", [("interleaving", UT + ": write_wav, read_wav"), ("sample codecs", SF + "mod.rs")], [], ["bytes written", "read_wav result"])
p("C21", "WAV input and output report faults instead of hiding them",
  "If writing a WAV reports success, the destination received the complete file, however it chopped up the writes; if the destination fails at any point, writing reports an error and the destination holds a prefix of the file. Reading from a source that delivers the same bytes in pieces gives the same result, and a source that fails or ends before the file is complete gives an error, never audio and never a panic.",
  "fault_sequences inputs crash_points", "every pattern of partial, interrupted and failing reads and writes, truncation at every byte",
  "The tests write to files that always accept everything and never read.",
  UT, [("write_all of the finished file", UT + ": write_wav"), ("read errors", UT + ": read_wav")], [], ["io::Result", "bytes received by the destination"])
p("C22", "WAV writing clips on request and refuses what it cannot write",
  "With clipping on, every sample above 1 or below -1 is written as 1 or -1 and every other sample as it is; with clipping off, in-range samples are written the same. No channels, channels of different lengths, more channels than a WAV header can hold (a frame of more than 65,535 bytes), or a bit depth other than 8, 16 or 24 give an error and nothing reaches the destination.",
  "inputs configurations", "every mix of in-range and out-of-range samples (infinities included), channel layouts and depths",
  "No test passes clip=true or provokes an error.",
  UT, [("clip loop and checks", UT + ": write_wav")], [], ["bytes written", "io::Result"])
p("C23", "PCM codes convert to samples and back without loss",
  "For every 8-, 16- and 24-bit code, converting to a sample and back returns the code, samples increase with the code, and the documented full-scale points map to each other (silence to 0, the largest code to 1 for 16 and 24 bits). The byte forms agree with the integer forms in little-endian order, samples in [-1, 1] convert to the nearest code, and a 24-bit code in 32 bits means the same whatever its upper byte holds.",
  "inputs", "all 2^8, 2^16 and 2^24 codes, every sample in [-1, 1]",
  "Codecs are only run to write files nobody reads; no negative or byte-form value is ever decoded.",
  SF + "mod.rs", [("sample_from_*/sample_to_*", SF + "mod.rs")], [], ["return values"])
p("C24", "Sample formats obey the arithmetic of their channels",
  "Mono and stereo samples add, subtract, multiply, negate and scale channel by channel, and every assigning operator gives the same result as its plain form; a sample made of its channels holds them and one made of nothing is silent. Converting a mono sample to a format and back returns it, vectors of codes convert exactly when they hold at least one code per channel (and report an error otherwise) and convert back to the same codes in channel order.",
  "inputs histories", "every operator, every sequence of operators, every finite sample and gain, every vector length",
  "No test uses an operator or conversion of Mono or Stereo beyond Mono::from_sample and into_sample.",
  SF + "mono.rs " + SF + "stereo.rs", [("operator impls", SF + "mono.rs, " + SF + "stereo.rs"), ("TryFrom/Into", SF + "mono.rs, " + SF + "stereo.rs")], [], ["operator results"])
p("C25", "Panning moves the signal to the requested side",
  "Panning a sample into stereo at g (clamped to [-1, 1]) gives both sides 3 dB below the sample at 0, and moving g towards a side raises that side linearly in dB to the full sample and lowers the other linearly in dB to 120 dB below it. It is mirror-symmetric, linear in the sample, the same for single and double precision g, and panning into mono returns the sample.",
  "inputs", "every sample and every pan position, in and out of range",
  "No test pans.",
  SF + "stereo.rs " + SF + "mono.rs " + UT, [("to_sample_format", SF + "stereo.rs"), ("clerp/db_to_linear", UT)], [], ["Panner::to_sample_format"])
p("C26", "Normalising removes the offset and sets the peak",
  "Normalising any track to a level makes its mean 0 and its largest magnitude exactly that level, by one shift and one positive scale applied to all samples, so order and length are kept. A track with no signal, silent or constant, becomes silence and an empty one stays empty; normalising again to the same level changes nothing.",
  "inputs", "every track of finite samples and every level",
  "The tests normalise noise and never look at the result.",
  UT, [("normalize", UT)], [], ["track contents"])
p("C27", "Unit conversions and interpolation are mutually consistent",
  "Samples convert to seconds at the engine's rate and back to the same count, and seconds to the nearest sample; decibels and linear gain are inverse to each other with 0 dB being 1 and 20 dB being a factor of 10. Linear interpolation returns the line through its two points, and the clamped form returns the same with its argument limited to the interval given, in either order. Two numbers count as equal exactly if they differ by less than the epsilon given.",
  "inputs", "every sample count up to days, every duration, gain and interval with distinct ends",
  "seconds_to_samples is used with one value; samples_to_seconds, lerp and clerp never run, and the dB conversions are never checked.",
  UT, [("samples_to_seconds/seconds_to_samples", UT), ("linear_to_db/db_to_linear", UT), ("lerp/clerp", UT), ("float_equal", "src/debug.rs")], [], ["return values"])
p("C28", "bin2str lists the file's bytes exactly",
  "For any input file, the table bin2str writes lists exactly the file's bytes, in order, in decimal, separated by commas, with no trailing comma, over lines of bounded width. It reports success only once the table is completely written, and an error if the file can't be read or the table can't be written, in part or at all.",
  "inputs fault_sequences", "every file content and length; every amount of room for the table",
  "bin2str has no tests.",
  "utility/bin2str/src/main.rs", [("byte2char line wrapping", "utility/bin2str/src/main.rs")], [], ["output.rs"])
p("C29", "The in-memory reader delivers its bytes in order, once",
  "Whatever buffer sizes it is read with, the in-memory reader fills each buffer as far as its remaining bytes allow, delivers exactly its bytes in order, touches nothing beyond what it reports, and reports 0 from then on; audio read through it equals audio read from any other source of the same bytes.",
  "histories inputs", "every content and every sequence of buffer sizes including 0",
  "No test constructs the reader.",
  "src/debug.rs", [("VecReader::read", "src/debug.rs")], [("pos", "bytes delivered", "src/debug.rs")], ["Read::read"])
p("C30", "A WAV player plays the first channel of its source at its rate",
  "A WAV player built from a PCM WAV source plays that source's first channel, decoded to full scale, resampled from the rate its header states to the engine's rate, then silence; one built from a track and a rate plays that track the same way. The resampler it exposes is the one it plays through.",
  "inputs histories configurations", "every depth, channel count, sampling rate, length and speed history",
  "test_monowav is empty.",
  "src/generators/mono_wav.rs " + RS + " " + UT, [("from_source/from_track", "src/generators/mono_wav.rs")], [], ["MonoWav::process"])
p("C31", "Stateless building blocks do exactly their one operation",
  "The gain modifier multiplies every sample by its current gain, the passthrough returns every sample as it is, and neither remembers anything: the result depends on the present input (and present gain) alone, in every history and after every copy.",
  "histories inputs", "every sample, every gain and every history of gain changes",
  "test_gain asserts nothing and passthrough is never observed.",
  "src/modifiers/gain.rs src/modifiers/passthrough.rs", [("process", "src/modifiers/gain.rs, src/modifiers/passthrough.rs")], [], ["process"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
