#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
C='libs/core/include/rtbot/'; S='libs/std/include/rtbot/std/'; F='libs/finance/include/rtbot/finance/'; A='libs/api/'
TESTS="The tests feed a handful of short, hand-picked streams per operator and only one of them (the benchmark) runs in this build; "
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])],**kw))
    P.append(d)

p('P01','Input forwards, per port, exactly the strictly newer messages',
  'For every sequence of messages delivered to any ports of an input operator, a message is forwarded, unchanged, through the output port paired with its input port if and only if it is the first message on that port or its time is strictly greater than the time of the last message forwarded on that port. Ports never influence each other. So each output stream has strictly increasing times and nothing newer is ever discarded.',
  ['inputs','histories','configurations'],'every number of ports, every history of deliveries to the ports, every time (including 0 and repeated times) and value',
  TESTS+'the filter depends on the whole past of the port.',[C+'Input.h',C+'Operator.h'],'lastSent map per port compared with the front of a one-message buffer in Input::processData')
p('P02','Buffers keep exactly the last n messages and compute only when full',
  'An operator with a message window of size n computes for the first time when its n-th message arrives and then once per message, each time seeing exactly the last n messages in arrival order and a running total equal to the sum of exactly those values. An unbounded buffer keeps everything and never triggers. A delivery to a port that does not exist is rejected with an error and changes nothing.',
  ['inputs','histories','configurations'],'every window size n >= 1, every length and content of the history; values as real numbers',
  TESTS+'eviction, total and readiness must agree after every prefix of an unbounded history.',[C+'Operator.h'],'Operator::receiveData / executeData, Input::push_back/pop_front/setSum, toProcess set',
  state=[dict(name='dataInputs[port].data',meaning='the window'),dict(name='dataInputs[port].sum',meaning='running total'),dict(name='toProcess',meaning='ports with news')])
p('P03','Joins emit exactly the common timestamps, whatever the arrival order',
  'For streams with strictly increasing times on each port and any interleaving of their arrivals (each followed by processing), a join emits one synchronised set of messages for every time present on all its ports and for no other time, in increasing order, each as soon as the last message needed for it has arrived. In each set the message of a port leaves through the paired output port (or enters the combining function in port order), carrying the common time. The emitted sequence therefore does not depend on the arrival order, and no message that could still be matched is dropped.',
  ['inputs','histories','schedules','configurations'],'every interleaving of the per-port streams, every content',
  TESTS+'a missed match needs a particular interleaving of arrivals on several ports.',[C+'Join.h',C+'BinaryJoin.h',S+'Linear.h'],'Join::receiveData / executeData: drop every front older than the latest front, repeat, emit and pop when all agree')
p('P04','Binary and linear operators compute their function on matched values',
  'On each synchronised pair (a from the first port, b from the second) plus, minus and multiplication emit a+b, a-b and a*b; division emits a/b and nothing when b is 0; and/or emit 1 or 0 for the conjunction/disjunction of a>=0.5 and b>=0.5; the greater-than and less-than streams emit a when a>b, respectively a<b, and nothing otherwise. The linear operator emits the sum of the k-th coefficient times the value of the k-th port for any number of ports. The result always carries the common time and a set with no result is consumed all the same.',
  ['inputs','histories','configurations'],'every pair of values and every matched time; every coefficient vector; values as real numbers',
  TESTS+'the function must hold for every value, including 0, negatives, boundaries of 0.5 and ten or more ports.',[C+'BinaryJoin.h',S+'Linear.h',S+'Plus.h',S+'Minus.h',S+'Multiplication.h',S+'Division.h',S+'And.h',S+'Or.h',S+'GreaterThanStream.h',S+'LessThanStream.h'],'lambda given to BinaryJoin by each operator; Linear::processData')
p('P05','Demultiplexer routes each message by the controls of its own time',
  'For a demultiplexer whose data and control streams carry the same strictly increasing times with control values 0 or 1, in any interleaving, each data message leaves unchanged, exactly once, through every output whose control of the same time is 1 and through no other, and is dropped when all its controls are 0, in time order and as soon as the message and all its controls have arrived. Controls older than the waiting message are discarded. A control for a later time, or with another value, in front of the waiting message is reported as an error.',
  ['inputs','histories','schedules','configurations'],'every interleaving of data and control arrivals, every routing',
  TESTS+'routing is decided by several queues filled in arbitrary order.',[C+'Demultiplexer.h'],'Demultiplexer::join')
p('P06','Variable answers every query with the definition valid at its time',
  'For strictly increasing definition times and strictly increasing query times in any interleaving, a variable answers each query exactly once, in order, with the query time and the value of the latest definition at or before that time, or the default value if every definition is later. The answer is emitted as soon as a definition at or after the query time is known, and a query that cannot be answered yet waits. No error is raised for such streams.',
  ['inputs','histories','schedules'],'every interleaving of definitions and queries, every content',
  TESTS+'the answer depends on two queues and on what was already discarded.',[S+'Variable.h'],'Variable::query / queryAll over the data and control buffers')
p('P07','Stateless operators map each message to exactly their formula',
  'For every message (t,x): output and identity emit (t,x); add emits (t,x+c), scale (t,x*c), power (t,x^c), constant (t,c); time shift emits (t+dt*times,x), with the time stopping at 0 when the shift would make it negative; greater-than, less-than and equal-to emit (t,x) if x>c, x<c, x=c respectively and nothing otherwise. Each message gives at most one result, immediately, independent of everything before it.',
  ['inputs','histories','configurations'],'every parameter, every time and value, every history before the message',
  TESTS+'the formula must hold for every value and parameter, including zero and negative shifts.',[C+'Output.h',C+'FilterByValue.h',S+'Add.h',S+'Scale.h',S+'Power.h',S+'Constant.h',S+'Identity.h',S+'TimeShift.h',S+'GreaterThan.h',S+'LessThan.h',S+'EqualTo.h'],'processData of each operator on a one-message buffer')
p('P08','Window operators equal their definition over the last n messages',
  'From the n-th message on, each new message makes the moving average emit the mean, the standard deviation the sample (n-1) deviation, the finite impulse response the sum of coefficient k times the value k messages back (n coefficients), and the difference newest minus previous value (n=2), all over exactly the last n messages and with the time of the newest one (the difference with the time of the previous one when so configured). The peak detector emits the middle message (position n/2 counting from 0 at the oldest), unchanged, exactly when no message in the window has a greater value. Before the n-th message nothing is emitted.',
  ['inputs','histories','configurations'],'every window size, coefficient vector and history; values as real numbers',
  TESTS+'the window slides over an unbounded history and the incremental total must not lose or double count a message.',[S+'MovingAverage.h',S+'StandardDeviation.h',S+'FiniteImpulseResponse.h',S+'Difference.h',S+'PeakDetector.h',C+'Operator.h'],'processData of each operator over the full buffer')
p('P09','Accumulating operators equal the fold of the whole history',
  'After k messages count has emitted k for the k-th message and cumulative sum the total of the first k values, one result per message with its time. Auto-regression with coefficients c1..cN emits y_k = x_k + c1*y_(k-1) + ... + cN*y_(k-N), with y before the first message equal to 0. The relative strength index over n emits nothing for the first n messages, starts from the plain averages of the first n gains and losses, then updates average = (previous*(n-1)+new)/n, and emits 100-100/(1+gain/loss), or 100 when the average loss is 0.',
  ['inputs','histories','configurations'],'every history length and content, every n >= 1 and coefficient vector; values as real numbers',
  TESTS+'the state is a fold over an unbounded history.',[S+'Count.h',S+'CumulativeSum.h',S+'AutoRegressive.h',F+'RelativeStrengthIndex.h'],'accumulator fields updated by processData / receiveData / executeData')
p('P10','Resamplers emit every grid point exactly once, in order, rightly valued',
  'For strictly increasing input times starting at t0, a resampler with interval dt emits at t0+dt, t0+2dt, ... each exactly once and in increasing order: the constant resampler every grid point up to the newest message (with the value of the last message at or before the grid point), the cosine resampler every grid point up to the newest message, the hermite resampler (from the fourth message on) every grid point up to the second newest. Cosine values are y1*(1-w)+y2*w, w=(1-cos(pi*mu))/2, between the two messages around the grid point; hermite values are the zero-tension zero-bias cubic through the four surrounding messages, the missing message before t0 lying on the least-squares line of the first four messages one mean spacing earlier. An interval of 0 is rejected.',
  ['inputs','histories','configurations'],'every dt >= 1, every strictly increasing sequence of times (regular or with gaps of any size) and values; values as real numbers; times below 2^62',
  TESTS+'grid bookkeeping carries over from interval to interval for ever.',[S+'ConstantResampler.h',S+'CosineResampler.h',S+'HermiteResampler.h'],'nextEmit / carryOver bookkeeping and the emission loops',
  state=[dict(name='nextEmit, carryOver',meaning='position of the grid relative to the buffer')])
p('P11','Function operator interpolates its points for every input',
  'A function operator given at least two points with distinct abscissas, in any order, emits for each (t,x) the message (t,f(x)). In linear mode f is the straight line through the two neighbouring points of x, continued from the first or last two points outside their range; in hermite mode it is the cubic on that segment that takes the given ordinates at its two points and has there the slope of the line between the two neighbouring points (at the first and last point the slope of the end segment). At a given point x the value is exactly the given ordinate.',
  ['inputs','configurations'],'every set of points and every x; values as real numbers',
  TESTS+'every x in every segment, at the points and outside the range.',[S+'Function.h'],'Function::processData segment search, linearInterpolate, hermiteInterpolate, getTangent')
p('P12','A restored operator continues exactly like the one that was saved',
  'For every operator and every reachable state, saving its state and restoring it into a newly built operator with the same parameters consumes exactly the saved bytes and yields an operator that reacts to every further stream exactly like the original one. Saving does not change the operator.',
  ['histories','crash_points','configurations'],'every operator, every history before the snapshot, every continuation after it',
  TESTS+'a forgotten field only shows for particular histories.',[C+'Operator.h',C+'Message.h',C+'Input.h',S+'Variable.h',S+'Count.h',S+'CumulativeSum.h',S+'ConstantResampler.h',S+'CosineResampler.h',S+'HermiteResampler.h',S+'Function.h',F+'RelativeStrengthIndex.h'],'collect / restore of Operator, its nested Input, Message and the overriding operators')
p('P13','A restored program continues exactly like the one that was saved',
  'Saving a program and creating a program from the saved bytes yields the same program text and, for every operator of the graph, the state it had, whatever the order or size of the parts. The saved form is the program text and then, for every operator, its id and its own saved state, each with its length where it can vary. Saving does not change the program.',
  ['histories','crash_points','programs'],'every program (set of operators and ids) and every state of its operators',
  TESTS+'one program with one history is restored by the test, which this build cannot run.',[A+'src/Program.cpp',A+'include/rtbot/Program.h',A+'include/rtbot/Pipeline.h',C+'Composite.h'],'Program::serialize and Program(Bytes const&)')
p('P14','Emission delivers to every connection once, in order, and reports it all',
  'When an operator emits a message on a port, every connection of that port receives exactly that message on its own input port before any of the connected operators is processed; then each connected operator is processed once per connection, in connection order. Messages of a batch are propagated one after another in order, ports in name order. The returned result contains every emitted message under operator and port, in order, together with everything returned by the operators downstream, with nothing lost, duplicated or overwritten; emitting on an undeclared port is an error.',
  ['inputs','programs','schedules'],'every set of connections, every batch of messages on every set of ports, every downstream result',
  TESTS+'fan-out, several ports and merged results need graphs the tests do not build.',[C+'Operator.h'],'Operator::emit (three overloads) and mergeOutput')
p('P15','Connecting operators links exactly the requested ports or fails cleanly',
  'Connecting an operator to a child links the named output port to the named input port and nothing else, appending to earlier connections; an omitted port is filled in only if it is the only output of the operator, respectively the only input of the child and a data input, and otherwise connecting raises an error. Naming a port that does not exist makes no connection and is reported by a null result. Adding an input port whose name is empty or already used as a data or control port is an error. A program makes exactly the connections its text lists, in order, and is refused if one of them fails or names an unknown operator.',
  ['inputs','programs','configurations'],'every set of ports of both operators, every pair of requested names, every prior connection',
  TESTS+'negative cases and operators with many ports are not tested.',[C+'Operator.h'],'Operator::connect, addDataInput, addControlInput, getAllInputs')
p('P16','A program returns exactly the outputs selected by its output filter',
  'Feeding messages to a program processes every message of every port, in order, through the entry operator. The debug result contains everything every operator emitted, accumulated in order; the normal result is the restriction of it to the operators and ports listed in the program output section (everything when that section is empty), with the same messages in the same order. The entry operator and the output section are those of the program text, and so the calls that ask for them (and for the data ports of the entry operator) report; a text whose entry operator is missing, unknown or has control inputs is refused. The calls of the programming interface hand over all messages and return these results whole, as JSON.',
  ['inputs','programs'],'every output section, every batch of messages, every result of the operators',
  TESTS+'no executable test exercises several operators and ports in the output section.',[A+'include/rtbot/Program.h',A+'src/bindings.cpp'],'Program::receive / receiveDebug')
p('P17','Message buffers of different programs are isolated and consumed once',
  'Messages added to the buffer of a program are fed to that program, and only to it, port by port in the order they were added, the next time its buffer is processed, exactly once; afterwards the buffer is empty. Adding to or processing one program never changes the buffered messages of another, and doing so for an unknown program is an error that changes nothing. Deleting a program reports whether it existed. A batch given as lists of times, values and ports is added message by message, in order, before it is processed; lists of different lengths are an error that adds nothing.',
  ['inputs','histories'],'every set of programs and every interleaving of add / process / delete calls',
  TESTS+'interleavings of calls for several programs are not tested.',[A+'include/rtbot/FactoryOp.h',A+'src/bindings.cpp'],'FactoryOp::addToMessageBuffer / processMessageBuffer / processMessageMap')
p('P18','An inner graph behaves like the same operators wired directly',
  'A pipeline delivers a message received on its k-th input to the inner operator port behind it and processes it, and emits through its k-th output exactly the messages the inner operator port behind it emitted, once and in order; an error of an inner operator is passed on, and that operator is not processed again before it receives again. A composite hands messages on its ports to its input operator and connections from it start at its output operator. The inputs and outputs of a pipeline are the inner data inputs and outputs that no inner connection uses, in the order of their names. Saving and restoring covers all inner operators.',
  ['inputs','programs','histories'],'every inner graph result, every port mapping, every message',
  TESTS+'the pipeline tests cannot run in this build.',[A+'include/rtbot/Pipeline.h',A+'src/Pipeline.cpp',C+'Composite.h'],'Pipeline::receiveData / executeData port maps; Composite delegation')
p('P19','Every operator survives the trip through JSON with its parameters',
  'Writing an operator to JSON and reading it back yields an operator of the same type with the same id and the same parameters (window sizes, coefficients, values, intervals, flags, points, number of ports), for every operator type the factory knows. A parameter omitted from the JSON gets its documented default and a parameter that is present is used without loss.',
  ['inputs','configurations'],'every operator type and every parameter value',
  TESTS+'the factory does not build at the pinned commit, so nothing tests it.',[A+'src/FactoryOp.cpp'],'to_json / from_json per operator and the registry')
p('P20','Operators never read outside their buffers on any history',
  'For every operator and every history of well-formed deliveries, each followed by processing, no element outside a buffer, coefficient list or port table is read, no element is removed from an empty buffer, and no error is raised. Every loop over a buffer terminates.',
  ['inputs','histories','configurations'],'every operator, parameter and history',
  TESTS+'an out-of-range read needs a particular buffer length.',[C+'Operator.h',C+'Join.h',S+'PeakDetector.h',S+'FiniteImpulseResponse.h',S+'HermiteResampler.h',F+'RelativeStrengthIndex.h'],'index arithmetic in processData and the buffer accessors')
p('P21','A program is accepted only if it matches the published JSON schema',
  'Creating a program from a text validates the text once, against the published schema. A text that does not parse or that the schema validator rejects creates nothing and is answered with valid=false and the reason the validator gives; a text it accepts is created under the given id. Validating a text gives the same verdict, and the text of a single operator is judged by the part of the schema for its type, an unknown type being invalid.',
  ['inputs','programs'],'every text and every verdict of the schema validator (a library, known by its interface only)',
  TESTS+'the bindings are not part of the test build.',[A+'src/bindings.cpp'],'createProgram / validate / validateOperator')
p('P22','Language wrappers give the same results as the native library',
  'Building and running the same program through the Python, JavaScript, Rust or WebAssembly wrappers gives the same outputs as through the native library.',
  ['inputs','programs'],'every program and stream','Needs the foreign tool chains and the full build, which the tests here do not have.',['libs/wrappers/python/rtbot.py','libs/wrappers/javascript','libs/api/wasm/emscripten-bindings.cpp'],'generated bindings')
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
