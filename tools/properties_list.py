prop("C01", "The peak table keeps one owner per bin and hands out only new peaks",
     "After every sequence of put, forced put, activate, deactivate, cleanup, get and find-next calls the peak table answers as specified: a new peak replaces new peaks that it overlaps, but is ignored where an active or inactive (already handled) peak is; a forced peak always gets its place. "
     "Peaks that are not active are forgotten by a cleanup 2 minutes after they were put (not before), active peaks are never forgotten. "
     "Find-next returns a peak that is new, for every outcome of the random choice, whenever there is one, and nothing otherwise; asking for bins outside of the table never panics.",
     [H, I], "all sequences of operations up to depth 5 (quick) or 6 (thorough) over overlapping intervals, all random choices of find-next, time steps around the timeout",
     "The tests run a handful of single calls; overlaps, cleanup times and the random probing of find-next combine into thousands of histories.",
     ["rx/peaks.go"], [("PeaksTable.Put/ForcePut/Activate/Deactivate/Cleanup/FindNext", "rx/peaks.go")],
     ["rx.PeaksTable methods"], SEQ, "The reference is a set of intervals with a state and a time; math/rand is replaced to enumerate the random choices.")
prop("C02", "The listener pool hands out each listener id to at most one listener",
     "At any time at most <size> listeners are bound, all with different ids out of the pool's fixed set of ids; binding succeeds exactly if fewer than <size> listeners are bound. "
     "Released or reset listeners are no longer visited and their ids can be used again, and releasing a listener that is not bound (or not anymore) changes nothing. "
     "Reset detaches all bound listeners.",
     [H], "all sequences of bind, release (also of stale listeners), reset and attach up to a depth, for pools of 1 to 3 listeners, and the real size of 30",
     "The tests release one or two listeners once; double releases, stale listeners and reuse of ids need histories.",
     ["rx/listener.go"], [("ListenerPool.BindNext/Release/Reset, IDPool", "rx/listener.go")],
     ["rx.ListenerPool methods, reporter callbacks"], SEQ, "")
prop("C03", "Every callsign in the received text is found exactly once",
     "Each callsign in the text that is written to a text processor (a word of the form [prefix/]call[/suffix][/p|a|m|mm|am] after white space) is reported once per occurrence and in order, independent of how the text is split into writes and of its position in the text. "
     "A callsign at the very end of the text is reported only when something follows that ends the word, or when the write timeout of 5 seconds has passed at a regular check, and then only once. "
     "The text is passed on unchanged to the output, and the caller may reuse its buffer.",
     [I, H, S], "all strings over a small alphabet, all pairs of words at all positions, all partitions of sample texts into writes, pauses at all pairs of positions",
     "The tests write a few fixed texts in one way; a callsign across the boundary of a write or of the internal window is a question of position and chunking.",
     ["rx/text_processor.go"], [("TextProcessor.Write/findNextCallsign/writeTimeout, textWindow", "rx/text_processor.go")],
     ["rx.CallsignReporter, output writer"], SEQ, "The oracle applies the word grammar to the complete text at once.")
prop("C04", "Spots are decided by count, known callsigns and stickiness",
     "Every valid callsign (parsable, with a known DXCC prefix if the prefix list is available, not beginning with the false positive tu5nn) is reported as decoded with its running count and its weight (1 if it is in the callsign database, else 0). "
     "A callsign is spotted when count plus weight reaches 3 and stays the spotted one until another one has a strictly higher sum, then the old one is timed out and the new one is spotted; while there is a spotted callsign, each further valid decode spots it again. "
     "Missing databases restrict nothing: without prefix list every prefix is valid, without callsign database all weights are 0.",
     [H, C], "all histories of up to 7-9 decoded callsigns, with and without each of the two databases, all map iteration orders Go offers; 864 callsigns similar to the false positives of the decoder; histories of thousands of callsigns, known or not, and of callsigns that overtake each other again and again",
     "The decision depends on the whole history of decoded callsigns; the tests check single decisions.",
     ["rx/text_processor.go"], [("TextProcessor.collectCallsign/bestMatch", "rx/text_processor.go")],
     ["rx.CallsignReporter"], SEQ, "The databases are small fixtures read by the original parsers.")
prop("C05", "Restarting or stopping text processing leaves nothing behind",
     "After a restart of the text processor nothing of the text, counts, spots or unfinished work from before has an effect, and the last write is the time of the restart. "
     "After a stop returns, nothing is reported anymore and no goroutine is left; starting or stopping twice is harmless. "
     "A listener reports activation and deactivation in pairs with the frequency of its peak, everything else it reports is in between with its id and this frequency, and its timeouts (silence since the last decoded text, time since attachment) are exceeded only after, not at, the configured time.",
     [S, H], "all schedules of the text processor's goroutine against write, restart, stop, attach and detach up to 2-4 preemptions; all positions of a restart in a text",
     "Whether a late decode is reported after the stop depends on the schedule; the tests never restart with pending work.",
     ["rx/text_processor.go", "rx/listener.go"], [("TextProcessor.Start/Stop/Restart, Listener.Attach/Detach/TimeoutExceeded", "rx")],
     ["rx.Reporter, rx.CallsignReporter"], SCHED, "")
prop("C06", "The receiver can be started, stopped and set up at any time",
     "Start, Stop, IQ data, tuning, the center frequency and the settings may be called in any order and from several goroutines, also while a callsign is reported or a listener times out: nothing panics, blocks forever or gets lost, and a center frequency that was set is read back. "
     "When Stop returns, all listeners are reported as deactivated, nothing is reported anymore and no goroutine is left; a stopped receiver can be started again and receives like a new one, whatever it received before. "
     "IQ data with another sample rate or block size, or more data than can be processed, is skipped.",
     [S, H], "all schedules of two goroutines with up to 2 (quick) or 3 (thorough) preemptions in both modes; all sequences of 8 calls up to depth 4 or 5; 300 (thorough 5000) starts and stops; 336 histories before a restart, compared with a new receiver",
     "There are no tests for the receiver, and its channels are used from several goroutines.",
     ["rx/receiver.go"], [("Receiver.Start/Stop/do/IQData/run", "rx/receiver.go")],
     ["rx.Reporter, live goroutines"], SCHED, "Preparations before the race run in the default schedule.")
prop("C07", "Strain mode listens to each signal once and lets go of silent ones",
     "In strain mode, with every 100 frames at most one listener is activated, on a signal above the threshold that has no listener and had none since it was detected, as long as there is one and fewer than 30 listeners are active; listeners are on different frequencies. "
     "A listener is deactivated with the first frame after its attachment timeout or after nothing was decoded for its silence timeout, and not before. "
     "A signal that had a listener gets one again only after its detection is more than 2 minutes ago and it is detected again.",
     [H], "all sequences of 3-4 phases of 100 frames with all combinations of 5 sets of signals, pauses around the timeouts and random choices; patterns of 2-3 phases repeated for 70 phases; sequences of text and pauses around both timeouts; 40 signals; histories of signals that come and go while all listeners are busy; settings that are set again to the same value at 9 moments",
     "Needs hundreds of frames and minutes of clock per history; there are no tests for the receiver.",
     ["rx/receiver.go", "rx/peaks.go", "rx/listener.go"], [("Receiver.run, PeaksTable, ListenerPool", "rx")],
     ["rx.Reporter"], SEQ, "Schedules within a phase are not varied (C06 does); clock and ticker are those of the harness.")
prop("C08", "Receiver settings apply to all listeners, present and future",
     "Silence timeout, attachment timeout and signal debounce apply from the moment they are set to every listener, no matter whether they are set before or after the start, before or after listeners are bound, or before a restart; the same holds for the scope. "
     "A signal gets a listener if and only if it exceeds the noise by the peak threshold that is set; the scope shows this threshold, the levels and the bin of the first listener. "
     "The noise floor is measured inside of the band edges that are set.",
     [H, C, I], "all histories of 3-5 settings, starts, restarts and attachments, each followed by an examination of what the setting does; all combinations of signal levels, thresholds, bins and moments",
     "The tests of the receiver do not change settings; which listeners take part depends on the history.",
     ["rx/receiver.go", "rx/listener.go", "dsp/dsp.go"], [("Receiver.Set*, newListener, run", "rx/receiver.go"), ("FindNoiseFloor, FindPeaks", "dsp/fft.go")],
     ["reporter callbacks, scope frames"], SEQ, "The clock and the source of randomness of the peak selection are provided by the harness.")
prop("C09", "The receiver writes the text of the tuned frequency and nothing else",
     "In decode mode each tuning of the VFO is reported as one listener on exactly the tuned frequency which replaces the one before, and the text keyed on the bin of this frequency is written to stdout. "
     "In strain mode tuning selects the listener whose bin contains the frequency, if there is one. "
     "Text from other frequencies, and text of listeners that are bound later with the same id, is never written; a restart leaves nothing selected. "
     "Every offset listens to exactly the bin that contains the frequency.",
     [H, I], "all histories of 2-3 tunings and of keyed texts, ends of signals, restarts and moves of the center frequency in both modes; all bins and offsets of two block sizes",
     "The tests have no IQ data; what is written depends on the history of bindings.",
     ["rx/receiver.go"], [("Receiver.SetVFOOffset, ChannelWriter", "rx/receiver.go")],
     ["stdout, reporter callbacks, scope frames"], SEQ, "stdout is recorded by a shim of os.")
prop("C10", "A callsign keyed on a signal in the IQ data is spotted on its frequency",
     "For IQ data with CW signals well above the noise, strain mode spots the callsigns keyed on each signal, on the frequency of this signal (at most half a bin off), and no others. "
     "This holds for every bin including the first and the last one, for every speed from 12 to 30 wpm, for two signals at the same time, for signals between the bins, after complete silence or damaged samples in the IQ data, for a callsign that is the last word, and after changes of the center frequency at any moment.",
     [I, H], "all bins, several speeds, pairs of signals, lengths and moments of silence and of damaged samples (8 values up to infinity and NaN), changes of the center frequency and fractions of a bin, callsigns at the end of 1-3 signals",
     "The tests cover the parts with single examples, never the way from the IQ data to the spot.",
     ["rx/receiver.go", "rx/listener.go", "rx/peaks.go", "cw/spectral.go", "cw/decode.go", "dsp/fft.go", "dsp/dsp.go"], [("Receiver.run", "rx/receiver.go"), ("SpectralDemodulator.Tick", "cw/spectral.go")],
     ["reporter callbacks"], ENUM, "Signals are synthetic.")
prop("C11", "The CW decoder writes exactly the text that was keyed",
     "Text keyed with regular timing (dits, dashes, gaps of 1, 3 and 7 dits, up to a tick of jitter) is decoded to exactly this text, all letters, digits, signs and prosigns of the code included, when its speed is near the expected one (dit length 0.85 to 1.4 times the preset). "
     "At other speeds (2/3 to 2.5 times) it is decoded after one word has been heard, also when the speed changes within the text. "
     "A combination of dits and dashes that is no character is written as one replacement sign and changes nothing around it; pauses of any length are one space, the last character is written after some silence without a further signal, and silence produces no text.",
     [I, H], "all texts of up to 3-4 characters, all combinations of up to 8 dits and dashes, with a much too long signal in between, all jitter patterns of short texts, all pause lengths up to 80 dits, all speeds from 3 to 8 ticks per dit against each expectation",
     "The tests decode some recorded streams; the adaptive thresholds depend on everything heard so far.",
     ["cw/decode.go"], [("Decoder.Tick", "cw/decode.go"), ("adaptiveCutoff, onChar, appendSymbol", "cw/decode.go")],
     ["writer of the decoder"], ENUM, "The keying is produced by a reference encoder from the code table; dits shorter than 3 ticks are outside of the domain (they are debounced away).")
prop("C12", "The CW decoder survives every key sequence and recovers",
     "For every sequence of on and off times the decoder terminates, writes only characters of the code, spaces and the replacement sign, never more characters than there were signals, and nothing during silence. "
     "After a reset it behaves exactly as a new decoder; after a clear nothing of what was heard before is written, while the speed is kept. "
     "After any sequence the decoder follows regular text again after a few words. An attached scope sees every tick and does not change the text.",
     [H, I, F], "all sequences of 5-6 on/off times out of 11 durations from 1 to 150 ticks, followed by reset, clear or regular text at several speeds",
     "The tests have no irregular input; whether the decoder gets stuck depends on the history of its thresholds.",
     ["cw/decode.go"], [("Decoder.Tick/Reset/Clear", "cw/decode.go")],
     ["writer of the decoder, scope frames"], SEQ, "")
prop("C13", "The audio demodulator can be used and closed from any goroutine",
     "When Close returns, from whatever goroutine, however often and whatever is going on at the same time, the last character has been written and no goroutine is left. "
     "Write returns the number of accepted samples, with an error exactly if this is not all of them, also while or after the demodulator is closed; no operation blocks forever or panics afterwards. "
     "Settings take effect before the call returns: what was set last is what is returned, in every order and also while samples are processed.",
     [S, H], "all schedules of Close against Write, every setting and another Close with up to 3 preemptions, with and without samples that are not processed yet; all sequences of 4-5 operations",
     "The tests use the demodulator in one goroutine with one history.",
     ["cw/audio.go"], [("AudioDemodulator.do/run/Write/Close", "cw/audio.go")],
     ["return values, writer of the demodulator, live goroutines"], SCHED, "")
prop("C14", "CW audio on the pitch becomes text, however it is delivered",
     "CW on the configured pitch is decoded at every speed from 12 to 30 wpm, for every supported pitch and sample rate, with and without automatic gain, at several amplitudes, and the speed is shown within 20%. "
     "Only the first of several interleaved channels is heard. "
     "The way the samples are cut into writes changes nothing. "
     "Tones 400 Hz or more away and silence produce no text. The signal threshold can be set.",
     [I], "all combinations of pitches, sample rates, speeds, amplitudes and settings; all partitions of a short signal into writes; all numbers of channels from 1 to 4; 8 kinds of damaged samples before and between texts",
     "The tests decode one recording; partitions and channels interact with the block size.",
     ["cw/audio.go", "dsp/dsp.go", "cw/decode.go"], [("AudioDemodulator.run/filterAndDemodulate", "cw/audio.go"), ("Goertzel", "dsp/dsp.go")],
     ["writer of the demodulator, scope frames"], ENUM, "Signals are synthetic.")
prop("C15", "A debounced state changes exactly when the raw state is stable",
     "The debounced state follows the raw state if and only if the raw state has been the same for at least as many calls as the threshold in effect; a change of the threshold alone never changes the state. A threshold of one or less passes everything.",
     [I, H], "all sequences of 20-24 raw states for thresholds -1 to 6; all sequences of 12-14 raw states with all moments of two threshold changes; all sequences of three runs around thresholds up to 40000",
     "The test has one sequence; glitches and threshold changes are a matter of history.",
     ["dsp/dsp.go"], [("BoolDebouncer.Debounce/SetThreshold", "dsp/dsp.go")],
     ["return values"], SEQ, "")
prop("C16", "The spectrum of IQ data is the shifted DFT with calibrated levels",
     "The spectrum and the power density of a block of IQ samples are those of the discrete Fourier transform with the zero frequency in the middle, for every block size that is a power of two and every sequence of block sizes; the samples are not changed. "
     "A tone on a bin appears in this bin only, with a level in dB that depends on its amplitude and not on the block size. "
     "Levels are finite (also for silence) and grow with the signal; both ways to calculate them agree.",
     [I], "all IQ blocks over {0,1,-1} with 2 and 4 samples, all single samples and pairs in blocks up to 128, all bins of blocks up to 2048-4096, 400 levels from 1e-30 to 1e12",
     "The tests only check the index shift.",
     ["dsp/fft.go"], [("FFT.IQToSpectrumAndPSD/IQToSpectrum, binToSpectrumIndex", "dsp/fft.go"), ("MagnitudeIndB, PSDValueIndB", "dsp/fft.go")],
     ["spectrum and PSD slices"], ENUM, "The oracle is a naive DFT; linearity extends the single samples to all blocks.")
prop("C17", "Frequencies and bins are mapped consistently",
     "Each bin covers sample rate / block size Hz around its center, the center frequency is the middle bin, the frequency of a bin is mapped back to this bin, and every frequency inside of the bandwidth belongs to the bin with the nearest center; others are mapped to the first or the last bin. This holds after every sequence of center frequencies.",
     [I, H], "all bins of 5 block sizes for 6 sample rates and 8 center frequencies, all frequencies in steps of 1 Hz, all sequences of 4-5 center frequencies",
     "The tests check two bins of one mapping.",
     ["dsp/fft.go"], [("FrequencyMapping.BinToFrequency/FrequencyToBin/SetCenterFrequency", "dsp/fft.go")],
     ["return values"], ENUM, "Frequencies are compared with a tolerance of 1 Hz, they are integers.")
prop("C18", "Peaks and the noise floor are found as defined",
     "The peaks of a spectrum are exactly its maximal runs of bins above the threshold, up to the last bin, each with its strongest bin, its value and the frequencies of its borders. "
     "The frequency of a signal is the vertex of the parabola through the strongest bin and its neighbors, always finite and inside of the bin. "
     "The noise floor and its variance are those of the quietest of ten windows between the edges. Sum, mean and maximum of a section are those of this section.",
     [I], "all spectra of up to 9-11 bins over 4 values with all thresholds, all triples of 12 levels, tones in steps of 1-5 Hz, 2^18-2^21 noise patterns with edges",
     "There are no tests of these functions; errors at the first and the last bin or in the last window appear only in specific spectra.",
     ["dsp/fft.go"], [("FindPeaks, PeakCenterCorrection", "dsp/fft.go"), ("FindNoiseFloor", "dsp/fft.go"), ("Block", "dsp/fft.go")],
     ["return values"], ENUM, "")
prop("C19", "Filter and rolling statistics match their definition for every history",
     "The tone filter has blocks of whole periods of the pitch (at least one, nearest to 5 ms), its magnitude is that of the DFT at the pitch, and its normalized magnitude and state follow from the blocks heard so far. "
     "Rolling mean, variance and history equal those of the last n values, after every sequence of values and resets, and whatever values were there before.",
     [I, H], "all pitches from 20 to 1500 Hz for 7 sample rates; all small blocks over 3 values; all sequences of up to 8-10 blocks and 8-11 values and resets; windows of up to 200 (thorough 1000) values with extreme, infinite and NaN values at 7 moments",
     "The tests of the filter use one pitch and fresh filters; the rolling statistics have no tests of their values.",
     ["dsp/dsp.go"], [("Goertzel", "dsp/dsp.go"), ("RollingMean, RollingVariance, RollingHistory", "dsp/dsp.go")],
     ["return values"], SEQ, "Floating point results are compared with a tolerance.")
prop("C20", "A spot is announced again only after the silence period",
     "A spot of a callsign on a frequency (rounded to kHz) is announced if and only if there was no announced spot of the same callsign and kHz within the current silence period before its timestamp (4 minutes by default, changeable at any time). "
     "A suppressed spot does not extend the silence. "
     "This holds also for spots from several goroutines at the same time: the same spot is announced once. What another server has announced does not matter.",
     [H, S], "all sequences of spots over 4 callsign/frequency pairs with time differences around the period, also backwards in time; up to 12000 other spots in between; similar callsigns; all sequences of 5-7 spots and restarts on two servers; all schedules of two sources",
     "Depends on the history of spots and, for two sources, on the schedule; there are no tests.",
     ["telnet/telnet.go"], [("Server.Spot/shouldAnnounce/registerSpot", "telnet/telnet.go")],
     ["bytes received by a client"], SCHED, "TCP is replaced by an in-memory network with bounded capacity.")
prop("C21", "Every connected telnet client gets every spot, in order and unharmed",
     "Each client that is connected before a spot is announced and stays connected receives this spot once, complete and in the order of announcement, independent of other clients joining, leaving, typing or not reading at all. "
     "A connection stays open while nothing happens, for any time. A client that leaves or does not read neither blocks the spots nor Stop. "
     "What a client receives is always a sequence of complete messages.",
     [S, F, H], "all schedules with up to 1-3 preemptions; all subsets of 3-4 clients leaving and one more later; stalled clients before and after a healthy one; clients that pause for 1 to 250 spots; all sequences of 5-6 of 8 events and all histories repeating 3-4 of them seven times; up to 70 (thorough 150) clients together and one after another; accept failing 1 to 60 times; all sequences of 3 of 9 pauses from 0 to 1000 hours",
     "Loss depends on which clients fail at which moment; there are no tests.",
     ["telnet/telnet.go"], [("Server.run, Connection.Write/run", "telnet/telnet.go")],
     ["bytes received by the clients"], SCHED, "TCP is replaced by an in-memory network with bounded capacity.")
prop("C22", "The telnet dialog does not depend on how the input is transferred",
     "After the welcome line and the prompt, the first line a client sends is answered with 'welcome <line>' and each further line with an empty line, byte for byte, for every partition of the input into packets, every line length and both kinds of line end. "
     "Clients do not influence each other's dialog. "
     "A client that leaves in the middle of its input leaves a server that serves the next one.",
     [I, S], "all partitions of 9 inputs into packets with all schedules of up to 1-2 preemptions, line lengths around the buffer size, hundreds of lines, two clients at the same time",
     "There are no tests; splitting and interleaving are up to the network.",
     ["telnet/telnet.go"], [("Connection.readLoop/parseAnswerByte/startPrompt", "telnet/telnet.go")],
     ["bytes received by the client"], SCHED, "TCP is replaced by an in-memory network with bounded capacity.")
prop("C23", "Stopping the telnet server releases everything",
     "When Stop returns, from whatever goroutine and however often it is called, the port is free, all clients are disconnected and no goroutine is left, also if clients are stalled, typing, connecting or leaving at this moment. "
     "Spots during and after the stop return without effect on others. "
     "A server on a port in use or an invalid address is reported as an error.",
     [S, F], "all schedules of Stop against spots, clients and another Stop with up to 1-4 preemptions",
     "The tests never stop a server.",
     ["telnet/telnet.go"], [("Server.Stop/run, Connection.Close/disconnect", "telnet/telnet.go")],
     ["port, connections, live goroutines"], SCHED, "TCP is replaced by an in-memory network with bounded capacity.")
prop("C24", "A spot line has the DX cluster format",
     "Every announced spot is one line 'DX de <mycall>:' padded to 16 columns, the frequency in kHz with one decimal right aligned in 6 columns, two spaces, the callsign padded to 13, the comment padded to 31 and the time of day of the timestamp as HHMM, followed by z. "
     "Callsign, comment and frequency appear unmodified (the frequency rounded to 100 Hz).",
     [I], "all combinations of callsigns, frequencies, comments and times at the limits of the columns",
     "There are no tests of the format.",
     ["telnet/telnet.go"], [("Server.formatSpotMessage", "telnet/telnet.go")],
     ["bytes received by a client"], ENUM, "")
prop("C25", "Every message of a KiwiSDR is understood for what it is",
     "Messages are told apart by their tag. Each IQ message delivers exactly its samples, big endian, in order and scaled to [-1,1), to the handler, and what has been delivered is not touched afterwards. "
     "A sample rate is applied once it is known, IQ data before that is not delivered. Configuration values are found in any order, with strange, empty or encoded neighbors. "
     "Busy, down and bad password end the connection. No sequence of messages, however short or malformed, crashes the client.",
     [I, H], "all sequences of 4-5 of 24 messages, all patterns of up to 3 messages repeated 60 times, 2000-10000 IQ messages whose samples are all kept, all configurations of 4-5 of 17 tokens, all lengths of IQ messages, all sample values",
     "The tests decode two recorded messages; the server is not under our control.",
     ["kiwi/client.go"], [("Client.readLoop/decodeMessage/decodeIQMessage", "kiwi/client.go")],
     ["calls of the handler, state of the connection"], SEQ, "The websocket is replaced by an in-memory connection that delivers whole messages.")
prop("C26", "The connection to a KiwiSDR is set up, kept alive and closed completely",
     "The client authenticates, then sets mode, frequency and passband as given, acknowledges the sample rate, and sends a keepalive at least every 5 s. "
     "Close at any moment, from several goroutines, while the server sends, breaks the connection or refuses us, returns, closes the connection and leaves no goroutine behind; nothing is delivered afterwards. "
     "A connection that breaks at any message ends in the same way.",
     [S, F], "all schedules of Close against the server and a second Close with up to 1-5 preemptions; a break at every message; all center frequencies and bandwidths of a grid; keepalive for days",
     "There is no test of the connection; the failures depend on the schedule.",
     ["kiwi/client.go", "kiwi/kiwi.go"], [("Client.Close/shutdown/readLoop/writeLoop", "kiwi/client.go"), ("Process.Close/Connected", "kiwi/kiwi.go")],
     ["messages sent, connection state, live goroutines"], SCHED, "The websocket is replaced by an in-memory connection with unlimited capacity.")
prop("C27", "A KiwiSDR is received like any other radio",
     "A callsign keyed on any frequency of the passband is spotted with this frequency, independent of how its samples are distributed to messages and how late these are processed; messages of unexpected size do no harm. "
     "The text of the rx frequency is written. "
     "Threshold, debounce, silence and attachment timeout and the scope are in effect, no matter whether they are set before, while or after the client connects; the last value counts.",
     [I, H, S], "8 frequencies x 2 speeds x 3 centers x 3 bandwidths, 1-20 blocks per message with 7 kinds of strange messages, bursts of up to 90 messages, 9 pairs of signals, all sequences of 2-4 settings and the connect, all schedules with 1-2 preemptions",
     "There are no tests of the process; settings get lost only in specific orders and schedules.",
     ["kiwi/kiwi.go", "rx/receiver.go"], [("Process.*", "kiwi/kiwi.go"), ("Receiver", "rx/receiver.go")],
     ["spots, text output, scope frames"], SCHED, "Websocket and clock are replaced by in-memory versions.")
prop("C28", "Markers on the TCI device and spots follow the events of the receiver",
     "While listeners are shown, each active listener has one marker with its frequency on the device, from its activation to its deactivation, also at the end of the process; while spots are shown, the spotted callsigns have one until their timeout. "
     "Nothing is added for what is switched off. Each spotted callsign is passed to the spotter once, with callsign, frequency and the current time in UTC, in order, no matter whether the device is connected or slow.",
     [H, S], "all sequences of 4-5 of 15 events (activation, deactivation, spot, timeout, settings, connection) for all settings, all patterns of 3-4 of them repeated 60 times; all schedules of two sources with up to 2-3 preemptions; receptions of a QSO",
     "There are no tests of this package; the state of the markers depends on the history.",
     ["tci/tci.go"], [("Process.ListenerActivated/ListenerDeactivated/CallsignSpotted/SpotTimeout, doAsync", "tci/tci.go")],
     ["commands sent to the device, calls of the spotter"], SCHED, "The TCI client library is replaced by an in-memory device.")
prop("C29", "A TCI device is received like any other radio",
     "A callsign keyed on any frequency is spotted with this frequency, derived from the current center frequency of the selected TRX; in decode mode the text on the frequency of VFO A is written. "
     "The order of connect, center frequency and VFO does not matter, nor do messages of another TRX or VFO, with an unknown sample rate or of an unexpected size, whatever limits the device reports. "
     "Reception goes on after a lost connection, which is tried again at least every minute. All settings are in effect, no matter whether they are set before, while or after the client connects; the last value counts.",
     [I, H, S], "7 frequencies x 2 speeds x 6 IF limits, all pairs of devices with 4 IF limits one after another, 40 (thorough 400) lost connections, all orders of connect, center and VFO, 8 kinds of strange messages, center moved at 4 moments, all tunings of the VFO before and after there is a listener, all ways not to be tuned, all sequences of 2-4 settings and the connect, all schedules with 1-2 preemptions",
     "There are no tests of this package; the order of messages is up to the device.",
     ["tci/tci.go", "rx/receiver.go"], [("tciListener.*, Process.onConnected/Set*", "tci/tci.go"), ("Receiver", "rx/receiver.go")],
     ["spots, text output, scope frames, commands"], SCHED, "The TCI client library and the clock are replaced by in-memory versions.")
prop("C30", "Closing the TCI process ends everything it has started",
     "Close at any moment, from several goroutines and also while many operations are pending for a slow device, returns, stops the IQ data, removes the markers of the listeners and leaves no goroutine behind. "
     "Whatever the device does afterwards, nothing is started again and no marker is added. "
     "A device that connects immediately is not missed.",
     [S], "all schedules of Close against a device that connects, sends, tunes, disconnects or reconnects, settings and a second Close, with up to 1-20 preemptions",
     "There are no tests of this package; the failures depend on the schedule.",
     ["tci/tci.go"], [("Process.Close/run/doAsync/onConnected", "tci/tci.go")],
     ["commands sent to the device, live goroutines"], SCHED, "The TCI client library is replaced by an in-memory device.")
prop("C31", "Every viewer of the scope sees all frames unchanged and in order",
     "A viewer gets every frame that is shown after it joined, without gaps and in order, time frames and spectral frames alike, with stream, time stamp, frequencies, values and markers as given (rounded to single precision). "
     "Viewers come and go at any time without effect on the others. A viewer that is too slow loses its stream instead of delaying the receiver or the other viewers; several slow viewers at once do no harm.",
     [H, S, I], "all sequences of 6-7 events of up to three viewers (join, stall, go on, leave, frames) for three capacities of the stream, all patterns of 4-5 events repeated nine times; all sets of slow viewers out of 2-4; all schedules of joining and leaving viewers against 1-2 sources with up to 2-4 preemptions; all values, names, times and numbers of values of a grid",
     "The tests use one viewer that keeps pace.",
     ["scope/server.go", "scope/server_grpc.go", "scope/client.go"], [("grpcServer.run/sendFrameToStreams/removeStream/GetFrames", "scope/server_grpc.go"), ("ScopeServer.Show*", "scope/server.go"), ("Client.GetFrames", "scope/client.go")],
     ["frames received by the viewers, end of their streams"], SCHED, "gRPC is replaced by in-memory streams with bounded capacity; messages are marshalled as usual.")
prop("C32", "The scope can be started, stopped and left at any time",
     "Start reports an address that cannot be used, a second Start fails. Stop at any moment, also several times, while frames are shown and viewers join, returns, ends all streams, releases the port and leaves no goroutine behind; the server can be started again. "
     "Frames shown without an active server are dropped without blocking. "
     "A client that is closed ends its reception, whether or not anybody takes the frames.",
     [S], "all schedules of Start, Stop, Close, sources and viewers with up to 1-4 preemptions; up to 150 (thorough 1500) starts and stops",
     "The tests start and stop a server once; races and leaks depend on the schedule.",
     ["scope/server.go", "scope/server_grpc.go", "scope/client.go"], [("ScopeServer.Start/Stop/Active", "scope/server.go"), ("grpcServer.listen/serve/run/Stop", "scope/server_grpc.go"), ("Client.Open/Close", "scope/client.go")],
     ["port, streams, live goroutines"], SCHED, "gRPC and the network are replaced by in-memory versions.")
prop("C33", "TCP addresses of the command line are understood in all forms",
     "Host and port are taken from 'host', 'host:port', ':port', '[host]:port', '[host]' and 'host:'; what is missing or empty is replaced by the default, everything else is used as given. IPv6 addresses are given in brackets. "
     "Unknown hosts, ports that are no number or above 65535 are rejected with an error. No string crashes the program.",
     [I], "20 hosts with all ports 0-66000 and 15 more ports, 4 default hosts, 5 default ports; all strings of up to 6-7 of 8 characters",
     "There are no tests of this package.",
     ["cli/cli.go"], [("ParseTCPAddrArg, splitHostPort, validOptionalPort", "cli/cli.go")],
     ["resolved address"], ENUM, "The resolver knows localhost and numerical addresses only.")
prop("C34", "The options of the command line are in effect",
     "Each option of strain tci, strain kiwi, decode tci and decode pulse has its effect, alone and together with others, and the documented default otherwise: thresholds, debouncing, timeouts, telnet port, call of the reporter, spot period, TRX, spot markers, login, center and bandwidth of the KiwiSDR, host and port, scope and its address, trace; pitch, scale, magnitude, speed and source of the sound. "
     "A port in use, an invalid or unreachable host, a missing sound source or an invalid option ends the program with an error at once.",
     [I, H], "per command the defaults, every option alone, all but one and (thorough) all pairs, each followed by four experiments with IQ data which measure threshold, debouncing, both timeouts, spots, markers and login; grids of the sound options; all hosts, addresses and failures of a list",
     "There are no tests of the commands; what an option does is seen in the output only, after minutes of reception.",
     ["cmd/root.go", "cmd/strain.go", "cmd/decode.go", "cmd/tci.go", "cmd/kiwi.go", "cmd/pulse.go"], [("runStrainTCI, runDecodeTCI", "cmd/tci.go"), ("runStrainKiwi", "cmd/kiwi.go"), ("runPulse", "cmd/pulse.go"), ("runWithCtx", "cmd/root.go")],
     ["spots on the cluster, scope frames, commands to the device, stdout, ports"], SEQ, "The whole program runs, main to main; devices, network, sound server, signals and time are in-memory versions.")
prop("C35", "A signal ends the program in order, a second one at once",
     "The first SIGINT, SIGTERM, SIGHUP or SIGQUIT at any moment ends the program without an error: the TCI device has been told to stop the IQ data and the markers of the listeners are removed, the connections to the KiwiSDR and to the clients of the cluster are closed, no sound is recorded and the ports are free. "
     "A second signal ends the program even when a device does not answer any more. Nothing else ends it: no lost connection, no client that leaves.",
     [S], "all schedules of a signal against the start of every command, a device that connects and data that arrives, and of two signals with and without a stalled device, with up to 0-2 preemptions",
     "There are no tests of the commands; what happens depends on the moment of the signal.",
     ["cmd/root.go", "cmd/tci.go", "cmd/kiwi.go", "cmd/pulse.go"], [("runWithCtx, handleCancelation", "cmd/root.go"), ("runStrainTCI, runDecodeTCI", "cmd/tci.go"), ("runStrainKiwi", "cmd/kiwi.go"), ("runPulse", "cmd/pulse.go")],
     ["return of main, exit with an error, commands to the device, connections, ports"], SCHED, "A signal before the program asks for signals kills it, as usual. Signals are delivered by a shim of os/signal with its non-blocking send.")
prop("C36", "What is on the air is what the user gets",
     "decode pulse writes the text keyed at the selected pitch in the sound of the selected source, whatever its sample rate and number of channels. "
     "decode tci writes the text at VFO A and nothing else. strain tci and strain kiwi bring each callsign that is keyed in the IQ data, on its frequency, to every client of the cluster, also to clients that connect later, and nothing else; strain tci prints it, too. Changes of the center frequency and lost connections in between do not matter.",
     [I, H], "sources, sample rates, channels and pitches; pairs of stations on 14 bins, clients that connect before, after and much later; all sequences of 2-3 center frequencies with a reconnect at each position; all sequences of 2-3 VFO offsets",
     "No test covers more than one package.",
     ["cmd/pulse.go", "cmd/tci.go", "cmd/kiwi.go", "tci/tci.go", "kiwi/kiwi.go", "rx/receiver.go", "telnet/telnet.go", "cw/audio.go"], [("runPulse", "cmd/pulse.go"), ("runStrainTCI, runDecodeTCI", "cmd/tci.go"), ("runStrainKiwi", "cmd/kiwi.go")],
     ["stdout, spots on the cluster"], SEQ, "The whole program runs, main to main; devices, network, sound server and time are in-memory versions.")

prop("C37", "The scope shows what is going on in the receiver and the demodulators",
     "With every tick the scope that is set at this moment, and no other, is shown one frame of each stream of the decoder, with the key state, the duration of the current signal or gap and the thresholds in effect; the decoded text follows from these frames alone. "
     "The demodulators show value, threshold, raw and debounced state of every block. The receiver shows with every 100 blocks the mean of their spectra, with the threshold and the bin of a listener. Time stamps are the current time, frames are not modified afterwards, and a scope that is not active is shown nothing.",
     [I, H], "all key sequences of 4-6 durations out of 10; all sequences of values, thresholds and blocks; all sequences of 2-3 groups of spectra with restarts, skipped data and changes of the scope",
     "No test looks at a frame of a demodulator.",
     ["cw/decode.go", "cw/spectral.go", "cw/audio.go", "rx/receiver.go"], [("Decoder.Tick", "cw/decode.go"), ("SpectralDemodulator.Tick", "cw/spectral.go"), ("AudioDemodulator.run", "cw/audio.go"), ("Receiver.run", "rx/receiver.go")],
     ["frames on the scope"], SEQ, "The reference derives the text from the frames, with the code table of the library.")
