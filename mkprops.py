import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
D='opendis/dis7.py'; F='opendis/PduFactory.py'; S='opendis/stream.py'; R='opendis/record/__init__.py'; RR='opendis/record/radio/__init__.py'; RW='opendis/record/warfare/__init__.py'; RC='opendis/record/common.py'; RB='opendis/record/base.py'; BF='opendis/record/bitfield.py'; DR='opendis/DeadReckoning.py'; G='opendis/RangeCoordinates.py'; EX='examples/dis_receiver.py'
p('C01','Encode then decode returns the same PDU',
 'Take any PDU of a type the library can decode, give its fields any values inside their declared wire ranges and its record lists any number of records, serialise it and hand the bytes to createPdu. The result is a PDU of the same class in which every header field, every nested record and every list element has the value that was set, in the same order.',
 ['inputs'],'every supported PDU type x every value of each field taken over its boundary alphabet (all 256 values for 8-bit fields) x every shape of its record lists up to the bound',
 'The tests decode six captured messages and re-encode one of them; most of the 52 registered types, all list shapes other than 0, 1 or 3 elements and all boundary values are never exercised.',
 [D,S,F,RC,RR,RW],[('serialize/parse pair of every PDU class',D),('createPdu',F)],['createPdu(bytes) compared field by field with the PDU that was serialised'])
p('C02','Decode then encode reproduces the message bytes',
 'Any well-formed message of a supported PDU type, whatever its header, field and list contents, comes back byte for byte identical when it is decoded with createPdu and serialised again. Only reserved bits and padding may be normalised to zero.',
 ['inputs'],'every supported PDU type x every message the reference encoder produces over the same field alphabet and list shapes, including 0xFF/0x80 patterns in every byte position',
 'Only SignalPdu is re-encoded in the tests, from one captured file.',
 [D,S,F,RR,RW],[('parse followed by serialize',D)],['bytes out compared with bytes in'])
p('C03','Fields sit where the DIS wire layout puts them',
 'In the encoded form of every PDU each field occupies the octet offset, width and signedness that the DIS 7 layout gives it, in network byte order, after a common 12-octet header (version, exercise, type, family, timestamp, length, status, padding). Decoding reads each field from the same place, so bytes produced by an independent encoder are understood and bytes produced here are understood by an independent decoder.',
 ['inputs'],'every supported PDU type x every field set individually to each value of its alphabet x list shapes; compared with an independently written layout table',
 'A symmetric mistake in serialize and parse (two fields swapped, a width changed in both) is invisible to round-trip tests; the captured files cover six of the types.',
 [D,S],[('order and width of stream calls in serialize and parse',D),('big-endian struct formats',S)],['bytes from serialize() against the reference encoder; fields from createPdu() against the reference values'])
p('C04','PDU type number selects exactly the right decoder',
 'createPdu and getPdu choose the class by the PDU type octet alone: for each supported type number the result is an instance of the class that declares this number and the protocol family DIS assigns to it, and for every other type number the result is None. No other header content, trailing data or previously decoded message influences the choice.',
 ['inputs','histories'],'all 256 type octets x all 256 values of each of the other leading header octets, and all pairs of consecutive decodes',
 'Tests dispatch six type numbers.',
 [F,D],[('PduTypeDecoders table and getPdu',F),('pduType/protocolFamily class attributes',D)],['class and pduType of the returned object'])
p('C05','Counts and lengths always match the contents',
 'After any sequence of edits to the record lists of a PDU (append, insert, remove, replace, clear), the count and length fields it reports and the ones it writes on the wire equal the number and the size of the records actually present. The encoded message therefore decodes to exactly those records, followed by nothing.',
 ['histories','inputs'],'for every list-bearing PDU, all sequences of list edits up to the depth bound, from the empty and from non-empty initial states, plus every list length up to and around the capacity of its count field',
 'Tests look at count properties of decoded captures only; no test edits a list.',
 [D,R],[('numberOf... / ...Length / ...Count properties',D)],['count properties, count octets on the wire, records recovered by createPdu'])
p('C06','A truncated message is never accepted',
 'If the bytes given to createPdu, or to the parse method of a record, end before the complete encoded form of the PDU or record, decoding fails with an exception. It never returns a PDU in which missing fields, records or payload octets are silently left out or filled in.',
 ['fault_sequences','inputs'],'every proper prefix, at every octet, of every message shape of every supported PDU type and record',
 'No test feeds a short message.',
 [S,D,RR,R],[('short reads raise in the input stream primitives',S)],['exception versus returned PDU'])
p('C07','Objects are isolated and coding has no memory',
 'Two separately constructed or decoded PDUs or records never share mutable state: changing a field, list or nested record of one leaves every other unchanged. Encoding never alters the object and gives the same bytes each time, and decoding depends only on the bytes, not on what was decoded or encoded before nor on what the receiving object held.',
 ['histories'],'for every PDU and record class, all operation sequences (construct, mutate, encode, decode fresh, decode into an existing object) up to the depth bound over two or three objects, compared with a reference model without sharing',
 'Every test uses one fresh object and one operation.',
 [D,R,RC,RR,RW],[('None defaults replaced by fresh objects in constructors',D),('parse replaces list contents',D),('per-call placeholder class',R)],['field snapshots of all live objects after each step'])
p('C08','Values that do not fit are refused, not altered',
 'Serialising a PDU or record in which some field holds a number outside the range of its wire field (or a fraction where the wire has an integer), or in which a list has more elements than its count field can express, raises an exception. It never writes a truncated, wrapped or otherwise different value.',
 ['inputs'],'every integer field and every bit field of every supported PDU and record x out-of-range values just past both ends and far away, and every counted list one past its capacity',
 'No test serialises an out-of-range value.',
 [S,D,BF,RR],[('struct.pack range checks',S),('bit field range check',BF)],['exception versus bytes written'])
p('C09','Stream primitives are exact inverses in network order',
 'Each write primitive of the output stream emits exactly the octets of its value in big-endian order at its fixed width, and the read primitive of the same name returns that value and consumes exactly those octets, for every value of the type. Any interleaving of different primitives on one stream reads back in the same order.',
 ['inputs','histories'],'all values of 8- and 16-bit types, boundary and single-bit patterns of 32/64-bit types, and all sequences of primitives up to the depth bound',
 'Primitives are only used indirectly, with small positive values.',
 [S],[('struct formats of read_*/write_*',S)],['bytes emitted, value returned, stream position'])
p('C10','Bit fields keep every bit in its declared place',
 'A bit-packed record with any legal sequence of field widths occupies exactly its total number of octets, with the first declared field in the most significant bits; every combination of field values survives encode and decode, and the fields do not overlap. Illegal declarations (zero or over-wide fields, totals that are not whole octets or exceed 32 bits) are refused when the type is created.',
 ['inputs','configurations'],'all width compositions of 8 bits and (bounded) of 16 and 32 bits with all or boundary values; all 65536 bit patterns of the net id, spread spectrum and directed-energy flag records',
 'No test touches a bit field except through one transmitter capture with all bits zero.',
 [BF,RR,'opendis/record/warfare/enums.py'],[('bitfield factory over ctypes big-endian structures',BF)],['serialised octets and decoded field values'])
p('C11','Variable records keep type, length and payload',
 'A list of standard variable records survives encode and decode with each record carrying its type and total length once and its payload verbatim: known record types come back as their own class, unknown types as placeholders that keep their own type number and bytes even when several unknown types are mixed. A known record type that does not belong to the expected family is rejected, and an invalid type number or length is refused.',
 ['inputs','histories'],'all sequences up to the depth bound over known and unknown record types and payload sizes, in every PDU that carries such records, and the type-number boundary values',
 'No test contains a variable record.',
 [R,RB,RW,RR,D],[('getStandardVariableClass',R),('parseStandardVariableRecord',D),('StandardVariableRecord.serialize',RB)],['bytes on the wire and class/type/payload of the decoded records'])
p('C12','Every record type round-trips and reports its true size',
 'Every record class of the library, including those not reached from a PDU, encodes to a fixed layout and decodes back to the same field values for all in-range values, consuming exactly the octets it wrote. The size a record reports equals the number of octets it encodes to.',
 ['inputs'],'every record class x boundary alphabet of every field x list shapes',
 'Only the records contained in six captured messages are exercised.',
 [D,RC,RR,RW],[('marshalledSize and serialize/parse pairs',RR)],['marshalledSize(), encoded bytes, decoded fields, bytes consumed'])
p('C13','Transmitter parameter sections are delimited by their lengths',
 'In a Transmitter message the modulation parameters, the antenna pattern and the variable transmitter parameters are each decoded from exactly the octets their length or count field allots to them, with the record class chosen by radio system, major modulation and antenna pattern type. Unrecognised parameter blocks are kept verbatim, and a block never shifts the parts that follow it.',
 ['inputs','configurations'],'all combinations of radio system, major modulation, modulation block length, pattern type, pattern block length and variable record lists within the bounds',
 'One captured transmitter message without any of the three sections is tested.',
 [D,RR],[('TransmitterPdu.parse dispatch',D)],['decoded sections and re-encoded bytes'])
p('C14','Datums of any length stay aligned and intact',
 'A variable datum of any length keeps its identifier, bit length and payload through encode and decode and is padded with zeros so that it occupies a whole number of 64-bit words; the record after it starts exactly there. This holds for every mixture of fixed and variable datums in every PDU that carries them.',
 ['inputs','histories'],'all datum lengths from 0 to the bound (in bits), all sequences of up to three datums over a length alphabet, in every datum-carrying PDU',
 'Two captures with particular lengths are tested.',
 [D],[('VariableDatum padding arithmetic',D),('DatumSpecification',D)],['bytes on the wire, offsets of following records, decoded datums'])
p('C15','Entity marking text is preserved',
 'Setting a marking text of up to 11 ASCII characters and reading it back, directly or after any number of encode/decode trips, returns the same text; a longer text keeps its first 11 characters, and a new text completely replaces the previous one. The marking always occupies 12 octets on the wire, and any 11 octets received are kept unchanged.',
 ['histories','inputs'],'all sequences of set/encode/decode operations up to the depth bound over texts of every length 0..13; every octet value in every position',
 'One capture with the marking 26 is read.',
 [D],[('EntityMarking.setString/charactersString',D)],['charactersString(), octets on the wire'])
p('C16','Constructor arguments mean the same as assignments',
 'For every PDU and record class, passing a value as a constructor argument leaves the object in the same state, and makes it encode to the same bytes, as constructing it without arguments and assigning that value to the field. Arguments that are omitted leave the documented default, freshly created for each object.',
 ['inputs','configurations'],'every class x every constructor argument alone, all pairs of arguments, and all arguments together, over the field alphabet',
 'Tests never pass a constructor argument.',
 [D,RC,RR,RW],[('__init__ of every class',D)],['field values and encoded bytes of both objects'])
p('C17','Concurrent coding of separate messages does not interfere',
 'When several threads encode or decode different messages at the same time, each on its own streams and objects, each gets exactly the result it would get alone, whatever the interleaving.',
 ['schedules'],'all interleavings, at source-line granularity inside the library, of two threads with at most the stated number of preemptions, for message pairs that use every decoding path with helper state',
 'No test uses threads.',
 [D,F,R,S,RR],[('no module- or class-level scratch state in the codecs',D)],['PDU fields and bytes produced by each thread under each schedule'])
p('C18','Dead reckoning follows the published equations',
 'For all nine dead reckoning models the extrapolated position is P + V t (plus A t^2 / 2 for the accelerated models), with velocity and acceleration taken as world vectors for the world models and rotated by the initial yaw-pitch-roll orientation for the body models; fixed-orientation models return the orientation unchanged, rotating models advance it by the Euler rates of the body angular velocity, with yaw held at gimbal lock. Results are finite for finite inputs and do not depend on whether vectors are lists, tuples or arrays; the rotation and angular-velocity matrices used for this are the proper ones.',
 ['inputs'],'all nine models x the full product of a small grid of positions, velocities, accelerations, orientations, angular velocities and time steps',
 'Tests use one or two axis-aligned inputs per model; four of the nine models are never called.',
 [DR],[('drm_* functions',DR)],['returned position and orientation against an independent evaluation of the equations'])
p('C19','Dead reckoning is pure and steps compose',
 'A dead reckoning call never modifies its arguments, returns arrays that alias neither the arguments nor earlier results, and gives the same answer whenever it is repeated; a zero time step returns the starting state. For the fixed-orientation models, extrapolating through any sequence of time steps with the velocity advanced by the acceleration reaches the same state as one step of the total time, and stepping back returns to the start.',
 ['histories','inputs'],'all sequences of time steps (forwards and backwards) up to the depth bound for each model from several initial states, with aliasing probes after each call',
 'Each test makes one call with fresh arrays.',
 [DR],[('array copies on entry',DR)],['argument arrays after the call, results after later mutation, states reached by different step sequences'])
p('C20','Geodetic and Earth-centred coordinates are inverse',
 'Converting latitude, longitude and altitude to Earth-centred coordinates gives the WGS-84 point, and converting back returns the same geodetic position within a millimetre-level tolerance, for every latitude including the poles, every longitude including the date line and every altitude from below sea level to orbit. The conversion always terminates, and only the centre of the Earth is refused.',
 ['inputs'],'full grid of latitudes, longitudes and altitudes including singular and boundary values, and a grid of Earth-centred points on and around the axes',
 'Tests sample random points away from the poles with a tolerance of about half a degree and five metres.',
 [G],[('lla2ecef and iterative ecef2lla',G)],['ecef2lla(lla2ecef(x)), distance to an independent WGS-84 evaluation'])
p('C21','Attitude conversion preserves the orientation',
 'Converting a geodetic position with roll, pitch and heading to Earth-centred position and Euler angles, and back, describes the same physical attitude and position, and the Euler angles describe the body axes obtained by turning the local north-east-down frame through heading, pitch and roll. This includes vertical attitudes, the poles and the date line, where angles are not unique but the attitude is.',
 ['inputs'],'full product of grids over latitude, longitude, heading, pitch and roll including the singular values, both directions',
 'Tests compare angles at random non-singular attitudes to two decimals.',
 [G],[('llarpy2ecef, ecef2llarpy, rotate_3x3',G)],['rotation matrices of input and output attitudes'])
p('C22','Local tangent-plane conversions are rigid and inverse',
 'Converting between Earth-centred and local north-east-down coordinates about an origin is a rigid motion: it preserves distances, maps the origin to zero, points north, east and down along the geodetic axes, and each direction undoes the other. Range, azimuth and elevation derived from it describe the same vector.',
 ['inputs'],'full product of grids of origins (including poles and date line) and displacement vectors',
 'Never tested.',
 [G],[('ecef2ned, ned2ecef, ned2pae, ecef2pae',G)],['returned coordinates against an independent rotation'])
p('C23','UTM projection is correct in every zone',
 'For every geodetic point between 80S and 84N the zone number, latitude band letter, easting, northing and scale factor are those of the standard UTM grid, including the Norway and Svalbard exceptions, the zone and band boundaries and the date line. Northings are relative to the equator (negative in the southern hemisphere), and altitude is passed through.',
 ['inputs'],'full grid of latitudes and longitudes with all zone, band and exception boundaries and their neighbours, against an independent sixth-order Krueger series',
 'Never tested.',
 [G],[('lla2utm, ecef2utm, utmLetterDesignator',G)],['zone, band, easting, northing, scale'])
p('C24','Example receiver reports every datagram correctly',
 'Given any sequence of complete DIS datagrams, the example receiver prints one report per datagram naming the PDU type; for an Entity State (not at the exact centre of the Earth) it shows the entity number, latitude, longitude, altitude, yaw, pitch and roll that the sender encoded, each under its own label. An unsupported PDU type is reported without stopping the receiver, and the example sender transmits exactly the position, identity and marking it was given.',
 ['histories','inputs'],'all sequences of datagrams up to the depth bound over supported, unsupported and Entity State messages with distinct attitudes and positions, on a recorded fake socket',
 'The example test checks only that some Entity State report appears.',
 [EX,'examples/dis_sender.py'],[('recv()',EX),('send()','examples/dis_sender.py')],['lines printed and datagrams sent'])
p('C25','The decoding result depends only on the message',
 'The same message decodes to the same PDU whether it is given as bytes, as a file or as a stream at any current position, and whatever bytes follow it. Decoding consumes exactly the octets of the message, leaves the file closed and its content unchanged, and the decoded PDU stays as it is when the buffer or stream is used for something else afterwards.',
 ['inputs','configurations'],'every supported PDU type and shape x source kind x initial stream position x trailing data',
 'Tests use files for five types and bytes for one, never with trailing data or a moved position.',
 [F,S],[('getPdu seeks to the start',F),('createPdu',F),('createPduFromFilePath',F)],['decoded fields, stream position after decoding'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sch); assert x['statement'].count('. ')<=2,x['id']; assert len(x['title'])<=80
print(len(P))
