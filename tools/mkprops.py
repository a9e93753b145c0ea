import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs or [],hook_needed=None)))
MM="src/modbus_master.c"; MP="src/master_internall/modbus_master_PDU.c"; MQ="src/master_internall/modbus_queue.c"
SS="src/modbus_slave.c"; SP="src/slave_internall/modbus_slave_PDU.c"; SD="src/slave_internall/modbus_slave_data.c"
RT="src/common/modbus_RTU.c"; CR="src/common/modbus_crc.c"; BR="src/common/buf_rw.c"; PC="src/common/modbus_PDU_common.c"
drv="master UART driver interface (send / enable receive / events)"; sdrv="slave UART driver interface"; cbs="application data callbacks of the master"
p("M01","Every accepted master request is transmitted as its exact Modbus RTU frame",
 "Whatever slave address, data address, quantity and values the application passes, the frame the master hands to the UART driver for an accepted request is exactly the Modbus RTU encoding of that request: slave address, function code, big-endian address and quantity or value, byte count, data (coils packed least significant bit first with zero padding, registers big-endian) and CRC-16 low byte first. The frame has the encoded length and nothing of any earlier request appears in it.",
 ["inputs","histories"],"all eight request kinds x all 16-bit addresses x all permitted quantities x all data values x all 8-bit slave addresses, after any history of earlier requests",
 "Unit tests encode a few hand-picked requests into fresh buffers; they cannot enumerate quantities, values and buffer reuse after arbitrary earlier requests.",
 [MM,MP,RT,CR,BR,PC],[("request encoders",MP),("CRC append",RT)],[drv])
p("M02","Request admission: limits decide acceptance, and a refused request has no effect",
 "A request is accepted exactly when its quantity is within the Modbus limits (1..2000 coils or inputs read, 1..125 registers read, 1..1968 coils written, 1..123 registers written; single writes always) and a message slot is free; otherwise the call returns the queue-full result when no slot is free, and the invalid-request result when the quantity is out of limits. A refused request is never transmitted and never produces any callback.",
 ["inputs","histories"],"all quantities 0..65535 for each request kind, at every fill level of the message queue",
 "Tests check single quantities just inside and outside the limits on an empty queue; they do not combine quantities with queue levels and histories.",
 [MM,MP,MQ],[("quantity limit checks",MP),("free message pool",MM)],["return value of the request functions",drv])
p("M03","Message slots are never lost: capacity is always the configured one",
 "At any time exactly the configured number of message slots minus the number of accepted requests that have not concluded is available to the application. No history of refused requests, timeouts, exceptions, retries and communication errors ever makes the master refuse a valid request as queue-full while fewer than the configured number of requests are unfinished, nor accept more than that number.",
 ["histories","configurations"],"all histories of valid and invalid requests with all outcomes, for any configured queue length",
 "A leak shows only after several operations of the right kind in one run; each unit test starts from a fresh initialisation.",
 [MM,MQ],[("free and pending queues",MQ),("slot returned when a transaction ends",MM)],["return value of the request functions"])
p("M04","Requests go out in order, one at a time, each with the content it was accepted with",
 "Accepted requests are transmitted in the order in which they were accepted, each is put on the line exactly once apart from error repetitions, and the first transmission of a request never happens before the previous request has concluded. Neither later requests nor reuse of the caller's data array after the call changes what is transmitted.",
 ["schedules","histories"],"all interleavings of request calls with transmissions, responses, timeouts and errors, including queue wrap-around",
 "Tests push and pop a queue in isolation and run single transactions; they do not interleave new requests with every phase of running ones across queue wrap-around.",
 [MM,MQ],[("FIFO of prepared messages",MQ),("idle state takes the oldest message",MM)],[drv])
p("M05","Each accepted request concludes with exactly one outcome",
 "Each accepted request produces at most one outcome - its data or write confirmation, an exception report, a timeout report or a communication error report - and no callback is made that does not belong to the request then in progress. Repeated, duplicated, late or unsolicited line activity never produces a second outcome.",
 ["schedules","histories","fault_sequences"],"all schedules of polls, ticks and line events, all fault sequences on the line",
 "Each test follows one transaction to one chosen outcome; duplicates and late events after the conclusion are outside its script.",
 [MM,MP],[("transaction end",MM)],[cbs])
p("M06","The master never gets stuck: every accepted request eventually concludes",
 "As long as the application keeps polling and ticking and the driver eventually reports transmission done and line silence, every accepted request reaches an outcome within a bounded number of timeouts and repetitions and the next queued request is started. No pattern of line noise, event order or polling delay wedges the master.",
 ["schedules","fault_sequences","histories"],"all event orders and polling delays, including several events between two polls and noise in any phase",
 "A wedge needs a particular order of silence, error and poll events; tests poll after every event.",
 [MM],[("state machine and response timer",MM)],[cbs,drv])
p("M07","Response timeout: never early, never missed",
 "A timeout is reported only if the configured response time has passed since the request's transmission completed without an acceptable answer, and when that time has passed with no answer being received it is reported, however irregularly the application polls between timer ticks. Every (re)transmission starts the full response time again.",
 ["schedules","configurations"],"all interleavings of timer ticks and polls, any configured response time",
 "Tests set the counter by hand and poll after each tick; skipping over the deadline between two polls is not exercised.",
 [MM],[("response timeout timer",MM)],[cbs])
p("M08","Repetitions: only after a damaged answer, identical, and bounded",
 "A request is retransmitted only when an answer to its latest transmission arrived damaged (bad CRC or framing), always with the identical frame, and at most the configured number of times. If the answer to the last permitted repetition is damaged too, a communication error naming the kind of damage is reported; a damaged answer before that leads to a repetition, not to a report.",
 ["fault_sequences","schedules","configurations"],"all sequences of good, corrupt, framing-damaged, foreign and missing answers; any configured repeat limit",
 "Tests repeat the same fault; mixtures of fault kinds across attempts and across consecutive requests are not covered.",
 [MM],[("repeat counter, CRC and frame error handling",MM)],[drv,cbs])
p("M09","Only an intact, properly delimited answer of the addressed slave is acted upon",
 "The master passes data, confirmations or exceptions to the application only on the basis of a frame that was received after the request's transmission completed, carries the addressed slave's address, has a correct CRC, contained no framing error and was followed by the 3.5 character silence. Damaged, foreign, premature or incomplete frames never reach the application as an answer.",
 ["inputs","schedules","fault_sequences"],"all frames of up to 255 bytes, all placements of gaps, errors and polls",
 "Tests inject one wrong CRC and one wrong address; byte-level damage and event placement are unbounded.",
 [MM,RT,CR],[("address and CRC check",RT),("frame error and silence flags",MM)],[cbs])
p("M10","Frames of other slaves are ignored",
 "While the master waits for an answer, a complete frame carrying another address is neither delivered nor counted as an error nor does it change when the timeout is reported, and a proper answer that follows it in time is still accepted on the first attempt.",
 ["inputs","schedules","histories"],"any number and content of foreign frames in the waiting phase, any polling pattern",
 "One unit test checks one foreign frame by looking at internal variables, not the outcome of the transaction that follows.",
 [MM,RT],[("slave address check while waiting",MM)],[cbs,drv])
p("M11","Read answers are delivered completely and to the right place",
 "For a read request that is answered properly the application receives, through the callback of the requested data kind, exactly one value for each requested item, with the answering slave's address, consecutive data addresses starting at the requested one, and the value the answer carries for that item.",
 ["inputs"],"all four read kinds x all addresses x all quantities x all data contents",
 "Tests compare selected items of selected quantities; packing and index arithmetic must hold for every quantity and content.",
 [MP,BR],[("answer decoding",MP)],[cbs])
p("M12","Write confirmations name exactly what was written",
 "A properly answered write request results in exactly one confirmation, of the coil kind for coil writes and of the holding register kind for register writes, naming the slave, the written start address and the number of items written (one for single writes).",
 ["inputs","histories"],"all four write kinds x all addresses x all quantities x all values",
 "Tests confirm a few fixed writes.",
 [MP],[("write confirmation",MP)],[cbs])
p("M13","Exception answers are reported with the request they belong to",
 "An exception answer to a request results in exactly one exception report, of the data kind the request concerned, carrying the slave address, the function code without the exception bit, the exception code received and the requested address (and, except for single writes, quantity); no data or confirmation is delivered for it.",
 ["inputs","histories"],"all request kinds x all exception codes 0..255",
 "Tests use a few exception codes on selected functions.",
 [MP],[("exception decoding and dispatch",MP)],[cbs])
p("M14","Timeout and communication error reports identify the failed request",
 "A timeout or communication error report carries the slave address and function code of the request that failed, together with its data address (and, except for single writes, quantity) and the kind of failure, whatever bytes were or were not received.",
 ["histories","fault_sequences"],"all requests, all previous transactions, all damaged or missing answers",
 "Tests use buffers already filled with matching bytes, so a report assembled from the wrong place looks right.",
 [MM],[("timeout and communication error reports",MM)],[cbs])
p("M15","A clean exchange succeeds at the first attempt after any history",
 "After any history of failed transactions, noise, late answers and superfluous line events, a request that the slave answers properly in time concludes with that answer at its first transmission, without repetition or error report.",
 ["histories","fault_sequences","schedules"],"all histories of line events and transactions preceding the clean exchange",
 "Tests re-initialise before each case, so state left behind by an earlier transaction cannot show.",
 [MM],[("status flags and receive buffer handling between transactions",MM)],[drv,cbs])
p("M16","Malformed or mismatching answers are never taken for the requested data",
 "An answer whose function code is not that of the request (or its exception form), whose byte count or length does not fit the request, or whose echo of a write differs from the request never leads to data, a confirmation or an exception report. It is handled as a damaged answer.",
 ["inputs","histories"],"all CRC-correct answers with wrong function code, byte count, length or echo, for all requests",
 "Tests feed only answers that fit the request.",
 [MP,MM],[("answer checking",MP)],[cbs])
p("M17","Initialisation brings the master to a clean state from anywhere",
 "After the master is initialised again, in whatever state it was, no earlier request is transmitted or reported any more, all message slots are available, the driver has been initialised with the given settings, and new requests work as after the first initialisation. Initialised for an unsupported mode, every request is refused as invalid and nothing is transmitted.",
 ["histories"],"re-initialisation at every point of every history",
 "Tests initialise once per case.",
 [MM],[("initialisation",MM)],[drv,cbs])
p("S01","Every valid request to the slave is answered exactly once",
 "A properly delimited, intact request carrying the slave's address that arrives while the slave is ready is answered with exactly one frame once the 3.5 character silence has passed and the application polls, however the polls are spread over the reception.",
 ["schedules","inputs"],"all requests and all placements of polls relative to reception, silence and transmission events",
 "Tests drive the state machine event by event with one poll per event and check internal state rather than what is sent.",
 [SS],[("slave state machine",SS)],[sdrv])
p("S02","The slave never transmits unless it was properly asked",
 "The slave transmits only in answer to a complete request that carries its own address and a correct CRC, contained no framing error and was followed by the 3.5 character silence; frames for other addresses, broadcast, damaged, truncated or premature frames are never answered, and it never starts a transmission while the previous one is still running.",
 ["inputs","schedules","fault_sequences"],"all byte sequences up to 255 bytes, all placements of gaps, errors, polls and transmission completions",
 "Tests inject one bad CRC and one frame error.",
 [SS,RT,CR],[("address and CRC check",RT),("frame error handling",SS)],[sdrv])
p("S03","Slave answers are well-formed RTU frames",
 "Every frame the slave transmits carries its own address, the request's function code or that code with the exception bit, exactly the payload length that function and request call for, and a correct CRC over exactly the transmitted bytes.",
 ["inputs","histories"],"all requests, valid and invalid, after any history",
 "Tests inspect selected bytes of selected answers and never the transmitted frame as a whole.",
 [SS,SP,RT],[("response preparation",SP),("CRC append",RT)],[sdrv])
p("S04","Read answers carry the current application data",
 "The answer to a read request contains, for exactly the requested items of the requested table, the values the application's data have when the request is served: bits packed least significant first with zero padding, registers big-endian, with the matching byte count.",
 ["inputs","histories","configurations"],"all four tables x all address and quantity combinations inside the configured tables x all contents, application data changing between requests",
 "Tests read a few ranges of constant tables.",
 [SP,SD,PC],[("read services",SP),("data tables",SD)],[sdrv])
p("S05","Writes change exactly the addressed items to the transmitted values",
 "A positively answered write request has set exactly the addressed coils or holding registers to the transmitted values and nothing else, and its answer echoes the written address and value or quantity.",
 ["inputs","histories","configurations"],"all four write functions x all in-range address and quantity combinations x all values",
 "Tests check selected items, not that every other item is unchanged.",
 [SP,SD],[("write services",SP)],["application data of the slave",sdrv])
p("S06","Invalid requests are answered with the right exception code",
 "An intact request is answered with exception 01 if the function is not supported, 03 if the quantity, byte count or coil value is illegal, 02 if the address range exceeds the configured table, 04 if an addressed item has no application data, with illegal quantity or value taking precedence over address and address over byte count and missing data; requests with none of these faults are answered positively.",
 ["inputs","configurations"],"all 256 function codes x all address, quantity, byte count and value combinations, tables of different configured sizes",
 "Tests pick single out-of-range values with tables of the same size.",
 [SP],[("request validation",SP)],[sdrv])
p("S07","Requests that are not positively answered leave the data alone",
 "Read requests, requests answered with exception 01, 02 or 03, and frames that are not answered never change any application data, and input registers and discrete inputs are never changed by any request.",
 ["inputs","fault_sequences"],"all rejected, damaged, foreign and read requests",
 "Tests look at the answer of rejected requests, not at the whole of the application data.",
 [SP,SS],[("validation before effect",SP)],["application data of the slave"])
p("S08","The slave recovers from any line disturbance",
 "Whatever noise, framing errors, truncated or foreign frames, or events in unusual order preceded it, in any phase including while the slave was transmitting, a clean request that arrives when the line has been silent and the slave has been polled again is answered.",
 ["histories","fault_sequences","schedules"],"all histories of line events before the clean request",
 "Tests re-initialise before each case, so left-over reception state cannot show.",
 [SS],[("flag and buffer reset",SS)],[sdrv])
p("S09","Request bytes that are not there are never acted upon",
 "A CRC-correct request that is shorter than its function code and byte count require is never executed: no data are changed and no positive answer is given on the basis of bytes left over from earlier frames.",
 ["inputs","histories"],"all truncated but CRC-correct frames for all functions, after all earlier requests",
 "Tests always supply complete requests in a fresh buffer.",
 [SS,SP],[("request length check",SS)],[sdrv,"application data of the slave"])
p("S10","Initialisation brings the slave to a clean state from anywhere",
 "After the slave is initialised again, in whatever state it was, it answers the next clean request under its new address and only under that, registered application data are retained, and nothing pending from before is answered.",
 ["histories"],"re-initialisation at every point of every history, with any slave address",
 "Tests initialise once per case.",
 [SS],[("initialisation",SS)],[sdrv])
p("X01","End to end, the master receives what the slave holds",
 "When master and slave of this library are connected, every item value the master delivers for a read request equals the value the slave's application data had when the slave served that request, and a range or function the slave rejects arrives as the corresponding exception report. On an undamaged line whatever the slave answers reaches the application. This holds as long as the slave answers within the response time, so that no answer to an earlier request is still under way.",
 ["inputs","histories","fault_sequences"],"all reads through both stacks over a line that may lose or damage frames, or delay them within the response time",
 "Integration tests use the slave library as a response generator for a few reads.",
 [MM,MP,SS,SP,RT],[("both protocol stacks","src/")],[cbs,"application data of the slave"])
p("X02","End to end, a confirmed write has happened and an unrequested one has not",
 "When the master delivers a write confirmation, the connected slave's data had been set to exactly the written values, and slave data only ever change to values the master requested for those items. Over a lossy line a lost answer may leave a write done but unconfirmed, never confirmed but not done. This holds as long as the slave answers within the response time, so that no answer to an earlier request is still under way.",
 ["inputs","histories","fault_sequences"],"all writes through both stacks over a line that may lose or damage frames, or delay them within the response time",
 "Integration tests never run a write through both stacks with faults.",
 [MM,MP,SS,SP,RT],[("both protocol stacks","src/")],[cbs,"application data of the slave"])
p("X03","Master and slave in one program do not disturb each other",
 "When a program uses a master on one port and a slave on another, each behaves exactly as it would alone, whatever the interleaving of their line events, polls, requests and initialisations.",
 ["schedules","histories"],"all interleavings of two independent ports",
 "No test operates both state machines at the same time on independent lines.",
 ["src/"],[("separate state and buffers of the two sides","src/")],[drv,sdrv])
p("X04","Line corruption is detected",
 "A frame altered on the line by any one- or two-bit error, any odd number of bit errors or any burst of up to 16 bits is accepted by neither side: the slave does not execute or answer it and the master does not deliver it.",
 ["inputs","fault_sequences"],"all frames up to 255 bytes x all such error patterns",
 "Tests use one altered frame.",
 [CR,RT],[("CRC-16 check",CR)],[sdrv,cbs])
p("X05","No frame or request makes the library leave its memory",
 "For every request call within the API limits, every byte sequence of up to 255 bytes received and every event order, the library only touches its own buffers and the application data registered with it, and every call returns.",
 ["inputs","schedules","configurations"],"all requests, frames and event orders; any configured table sizes",
 "Tests run without memory checking on a handful of well-formed frames.",
 [MM,MP,SS,SP,SD],[("fixed 256 byte buffers and table bounds","src/")],["memory accesses under the address sanitizer"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
