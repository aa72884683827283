TECH = "bounded symbolic execution of the real sources (goto-cc intermediate representation) decided by a SAT/SMT solver (CBMC), counterexamples replayed natively"
NOTE = "Bounded model checking: every assertion is decided by the solver for all values of the symbolic inputs within the stated bounds; nothing is claimed outside them."

P = []

def prop(id, title, statement, over, quant, why, files, mech, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, na=na))

prop("R01", "Pulse and ray ring slots never overlap and count up without gaps",
     "Every slot of a pulse or ray ring holds its header and all of its sample or moment arrays in memory of its own: no two regions of the ring overlap and none reaches beyond what was allocated. "
     "Slots handed out one after another go around the ring in order, are vacant when handed out, and carry identities that increase by one and name their slot.",
     ["inputs", "histories"], "every gate capacity that the ring accepts, every pair of slots, every pair of arrays, every number of requests",
     "The tests allocate one or two rings of one capacity and look at a few cells; an overlap shows only for particular capacities, slots and arrays.",
     ["source/RKFoundation.c"], [("pulse ring", "source/RKFoundation.c RKPulseBufferAlloc, RKGetPulseFromBuffer, RKGetVacantPulseFromBuffer"), ("ray ring", "source/RKFoundation.c RKRayBufferAlloc, RKGetFloatDataFromRay")])

prop("N01", "A multi-part send transmits the exact byte stream or reports failure",
     "Sending a list of packets to a peer transmits exactly their bytes, in order, each at most once, no matter how the socket splits or refuses the individual sends. "
     "A positive byte count is reported only when every byte went out; otherwise the result is not positive, and the connection is left unlocked.",
     ["fault_sequences", "inputs"], "every packet list and every outcome (error, partial, complete) of every send",
     "Tests run over loopback, where sends are never partial or refused.",
     ["source/RKNetwork.c", "source/RKServer.c"], [("packet sending", "source/RKNetwork.c RKNetworkSendPackets; source/RKServer.c RKOperatorSendPackets")])

prop("N02", "The client delivers each server message whole, once, in order",
     "A client hands its receive handler each message of the server's stream exactly once, in order and complete, however the stream is split into reads, interrupted by temporary failures or cut off. "
     "A message that did not arrive completely, timed out, or exceeds the maximum packet size is never delivered, and every complete message up to the maximum size is accepted.",
     ["fault_sequences", "schedules", "inputs"], "every announced size, every split of headers and payloads into reads, every point of failure",
     "The interesting splits and timeouts happen on congested networks, never in a local test.",
     ["source/RKClient.c"], [("receive loop", "source/RKClient.c theClient")])

prop("N03", "The server accepts a user's payload only when all of it has arrived",
     "Reading a payload from a connected user stores the bytes contiguously, never reads past the message, and returns its exact length only when every byte has arrived. "
     "A payload that is cut off, times out or exceeds the maximum size is refused.",
     ["fault_sequences", "inputs"], "every announced size, every split into reads, every point of failure, both orders of the two timeouts",
     "Needs partial reads and stalled peers at particular points.",
     ["source/RKServer.c"], [("payload reader", "source/RKServer.c RKServerReceiveUserPayload")])

prop("S01", "Volume scans execute every sweep in order, and positions say what they belong to",
     "Sweeps are queued and executed in the order they were added: each sweep ends exactly when the moving axis crosses its end, then the next sweep starts, and after the last one the queued volume takes over (or scanning stops when not repeating); the lists never exceed their capacity. "
     "While a volume runs, each position is tagged with the sweep's axis, angles, activity and completion; while none runs, positions are not tagged and the pedestal is at most told to stop. "
     "Instructions are well formed: one per axis, and slewing or pointing only at the sweep's own speed or toward its start.",
     ["inputs", "histories"], "every control step from every state and position reading, every history of list operations",
     "A test would need a simulated pedestal through every mode, progress and reading; the existing ones only print.",
     ["source/RKSteerEngine.c"], [("sweep lists", "source/RKSteerEngine.c RKSteerEngineAddLineupSweep, RKSteerEngineAddPinchSweep, RKSteerEngineNextHitter"), ("control step", "source/RKSteerEngine.c RKSteerEngineGetAction, RKSteerEngineUpdatePositionFlags")])

prop("C01", "Configuration history: each change is a new slot that differs only where asked",
     "Every configuration change takes the next slot of the ring, gets the next identity, equals the previous configuration except for the given parameters, and is made entirely under the configuration lock, which is always released. "
     "Waveforms, calibrations and volume definitions are recorded as given or, when unusable, refused without disturbing later changes; the latest configurations can be found by identity and older ones cannot.",
     ["inputs", "histories"], "every parameter and value, every slot, every byte of the inherited configuration",
     "A parameter that leaks into another field, or a lock kept after a refused change, shows only for particular parameters and orders.",
     ["source/RKConfig.c", "source/RKRadar.c"], [("configuration ring", "source/RKConfig.c RKConfigAdvance, RKConfigAdvanceEllipsis, RKConfigWithId"), ("radar interface", "source/RKRadar.c RKAddConfig, RKSetPRF, RKGetLatestConfig")])

prop("W01", "Web socket frames carry any payload unchanged",
     "Encoding a payload gives a masked, final frame with the shortest correct length field whose unmasked content is the payload, and it never exceeds the frame buffer. "
     "Decoding a frame, masked or not, gives exactly its payload and length.",
     ["inputs"], "every payload, length, opcode and mask key within the stated sizes",
     "Masked input, the 125/126 boundary and full-size frames are never sent in a test.",
     ["source/RKWebSocket.c"], [("framing", "source/RKWebSocket.c RKWebSocketFrameEncode, RKWebSocketFrameDecode")])

prop("W02", "A web socket connection delivers frames whole and sends its queue in order",
     "Every frame that arrives completely is handled once with its own payload, however it is split into reads; a frame that is cut off is not delivered, one that cannot fit ends the connection, and no byte is stored outside the frame buffer. "
     "Payloads queued for sending are sent once each, in order, none is overwritten, and one is refused only when the queue is full; pings are answered with their own content.",
     ["schedules", "fault_sequences", "inputs"], "every announced length, every split into reads, every point of failure, every queue position and fill level",
     "Frames arrive whole and queues stay short in a local test.",
     ["source/RKWebSocket.c"], [("run loop", "source/RKWebSocket.c transporter, RKWebSocketFrameGetTargetSize, RKWebSocketPingPong"), ("queue", "source/RKWebSocket.c RKWebSocketSend")])

prop("P01", "Each pulse is tagged with the position at its own time",
     "Every processed pulse gets the angles interpolated between the two position readings around its time, with the velocities, raw values and scan type of the reading before it, and waits until those readings exist. "
     "Sweep begin, middle and end marks follow the scan's activity and completions no matter how pulses and readings interleave; each new sweep or change of gates records a configuration, and the pulse refers to the one in effect.",
     ["inputs", "schedules"], "every interleaving of pulses and readings in time, every combination of flags, around both rings",
     "Tests use one rate of pulses and positions; the marks depend on how many readings pass between pulses.",
     ["source/RKPositionEngine.c"], [("tagging", "source/RKPositionEngine.c pulseTagger")])

prop("A01", "Angle arithmetic stays on the shorter arc",
     "Differences of angles lie within half a turn and differ from the plain difference only by full turns, and interpolated angles divide the shorter arc as the weight tells, azimuths staying within one turn. "
     "Passing or arriving at an angle is recognised as crossing it, from either side and across north, and staying on one side is not.",
     ["inputs"], "every pair or triple of angles; weights 0 to 1 in quarters (every weight for the range)",
     "Wrap-around happens only for angles on different sides of north.",
     ["source/RKMisc.c", "source/RKDSP.c"], [("angles", "source/RKMisc.c RKMinDiff, RKAngularCrossOver; source/RKDSP.c RKInterpolatePositiveAngles")])

prop("M01", "Rays take every pulse of a sweep, in order and without gaps",
     "The pulses of a sweep are divided into rays where the whole degree of the moving axis changes, a ray is full, or the sweep ends; each ray begins where the previous one ended, and none is made of anything else. "
     "Rays are handed to the workers in turn, with a transform just large enough, and the public ray index passes a ray only when it and all before it are ready.",
     ["inputs", "schedules"], "every sequence of positions and marks, every order in which workers finish, around both rings",
     "Tests feed evenly spaced pulses of one scan and look at no ray boundary.",
     ["source/RKMomentEngine.c"], [("partition", "source/RKMomentEngine.c pulseGatherer")])

prop("M02", "Each ray carries the times, angles, marks and settings of its own pulses",
     "A worker makes its rays in turn, each from exactly the pulses assigned to it: begin from the first and end from the last pulse, marks of all of them, configuration, gates and calibration of the last. "
     "Moments are derived only from enough processed pulses over a small sector, with configured noise where none can be estimated; a ray that is skipped shows nothing, and only pulses of the ray become used.",
     ["inputs", "histories"], "every combination of marks, states, configurations, gate counts, sectors and outcomes of the noise estimator, across the end of the ring",
     "Tests run one configuration and never look at skipped rays or at what a slot held before.",
     ["source/RKMomentEngine.c"], [("worker", "source/RKMomentEngine.c momentEngineCore"), ("skipped rays", "source/RKMomentEngine.c zeroOutRay")])

prop("R02", "Slots are handed out in turn, vacant, and the latest ready item is found",
     "Every producer of status, health reports, positions, pulses and rays gets the slots of a ring in order, each vacant and numbered one higher than the last, without touching other items beyond the one to be cleared ahead. "
     "Items become visible only when declared ready, with the time of their clock unless they bring one, pulses within their capacity; readers get the most recent ready item.",
     ["histories", "inputs"], "every state of the rings: any index, running number, flags; live or not",
     "Wrap-around, reused slots and half-filled rings are reached only after long runs.",
     ["source/RKRadar.c", "source/RKFoundation.c"], [("producers", "source/RKRadar.c RKGetVacant*, RKSet*Ready"), ("readers", "source/RKRadar.c RKGetLatest*")])

prop("T01", "Values in health reports and control strings are found and changed exactly",
     "Reading a key of a report yields the text of its value with its brackets or quotes, as much as fits, and nothing beyond the end of the report, however malformed; up to eight results stay valid. "
     "Overwriting states changes only the intended value, whatever its length, and never shortens the report; quoted logical values lose just their quotes, and quoted strings are split at their own quotes.",
     ["inputs"], "every text up to the stated length, terminated or not, and values around the size of the buffers",
     "Tests parse a few complete reports; truncated ones and values of other lengths arrive from other machines.",
     ["source/RKMisc.c", "source/RKFoundation.c"], [("reports", "source/RKMisc.c RKGetValueOfKey, RKReplaceAllValuesOfKey, RKReplaceEnumOfKey, RKReviseLogicalValues"), ("controls", "source/RKFoundation.c RKParseQuotedStrings")])
