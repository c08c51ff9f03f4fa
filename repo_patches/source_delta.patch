From eb9f7614e830a5b02be24c0273cf21c713b812cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 01/54] fix: read_uint64 must return an unsigned value, as
 write_uint64 writes it

---
 opendis/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 908e976..2e43fe7 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -101,7 +101,7 @@ class DataInputStream:
         return uint32(self.read_unsigned_int())
 
     def read_uint64(self) -> uint64:
-        return uint64(self.read_long())
+        return uint64(struct.unpack('>Q', self.stream.read(8))[0])
 
 
 class DataOutputStream:
-- 
2.43.0


From 4a0aac5502ea4c73bedb9753eeb9a00a6cedefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 02/54] fix: read_char8 and write_char8 both use one unsigned
 octet

---
 opendis/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 2e43fe7..4e20734 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -71,7 +71,7 @@ class DataInputStream:
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-        return char8(self.read_char())
+        return char8(chr(self.read_unsigned_byte()))
 
     def read_float32(self) -> float32:
         return float32(self.read_float())
@@ -151,7 +151,7 @@ class DataOutputStream:
 
     # Aliases for convenience
     def write_char8(self, val: char8) -> None:
-        self.write_byte(ord(val))
+        self.write_unsigned_byte(ord(val))
 
     def write_float32(self, val: float32) -> None:
         self.write_float(val)
-- 
2.43.0


From dbd306d4c80c8fd9379f16666893beba396a9a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 03/54] fix: read_bytes and read_utf raise when the stream ends
 early

---
 opendis/stream.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opendis/stream.py b/opendis/stream.py
index 4e20734..bdf340a 100644
--- a/opendis/stream.py
+++ b/opendis/stream.py
@@ -57,7 +57,7 @@ class DataInputStream:
 
     def read_utf(self) -> bytes:
         utf_length = struct.unpack('>H', self.stream.read(2))[0]
-        return self.stream.read(utf_length)
+        return self.read_bytes(utf_length)
 
     def read_int(self) -> int32:
         return struct.unpack('>i', self.stream.read(4))[0]
@@ -67,7 +67,10 @@ class DataInputStream:
 
     def read_bytes(self, n: int) -> bytes:
         """Read n bytes from the stream."""
-        return self.stream.read(n)
+        data = self.stream.read(n)
+        if len(data) != n:
+            raise EOFError(f"expected {n} bytes, got {len(data)}")
+        return data
 
     # Aliases for convenience
     def read_char8(self) -> char8:
-- 
2.43.0


From fb552d2aa04e368f6e7e2adbde1d42dd3540958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 04/54] fix: PDU type 6 is Resupply Offer, not
 Collision-Elastic

---
 opendis/PduFactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 97921de..b8dd6a9 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -14,7 +14,7 @@ PduTypeDecoders = {
     ,  3 : DetonationPdu
     ,  4 : CollisionPdu
     ,  5 : ServiceRequestPdu
-    ,  6 : CollisionElasticPdu
+    ,  6 : ResupplyOfferPdu
     ,  7 : ResupplyReceivedPdu
     ,  9 : RepairCompletePdu
     , 10 : RepairResponsePdu
-- 
2.43.0


From 7815f3e54c7c4000dd007e292135aaaadd54b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 05/54] fix: register the implemented PDU types 30, 53 and 68
 in the factory

---
 opendis/PduFactory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index b8dd6a9..749d826 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -36,6 +36,7 @@ PduTypeDecoders = {
     , 26 : SignalPdu
     , 27 : ReceiverPdu
     , 29 : UaPdu
+    , 30 : SeesPdu
     , 31 : IntercomSignalPdu
     , 32 : IntercomControlPdu
     , 33 : AggregateStatePdu
@@ -48,6 +49,7 @@ PduTypeDecoders = {
     , 45 : ArealObjectStatePdu
     , 51 : CreateEntityReliablePdu
     , 52 : RemoveEntityReliablePdu
+    , 53 : StartResumeReliablePdu
     , 54 : StopFreezeReliablePdu
     , 55 : AcknowledgeReliablePdu
     , 56 : ActionRequestReliablePdu
@@ -60,6 +62,7 @@ PduTypeDecoders = {
     , 63 : RecordQueryReliablePdu
     , 66 : CollisionElasticPdu
     , 67 : EntityStateUpdatePdu
+    , 68 : DirectedEnergyFirePdu
     , 69 : EntityDamageStatusPdu
  }
 
-- 
2.43.0


From cf4c61f8202129957a703f9b367eeb3ff2e24a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 06/54] fix: PDU type 41 (Environmental Process, not
 implemented) is not a Point Object State

---
 opendis/PduFactory.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opendis/PduFactory.py b/opendis/PduFactory.py
index 749d826..9a85717 100644
--- a/opendis/PduFactory.py
+++ b/opendis/PduFactory.py
@@ -43,7 +43,6 @@ PduTypeDecoders = {
     , 36 : IsPartOfPdu
     , 37 : MinefieldStatePdu
     , 40 : MinefieldResponseNackPdu
-    , 41 : PointObjectStatePdu
     , 43 : PointObjectStatePdu
     , 44 : LinearObjectStatePdu
     , 45 : ArealObjectStatePdu
-- 
2.43.0


From f9d7ddc8532eaf4f79b107360dde5f7705652607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 07/54] fix: standard variable records write their type and
 16-bit length exactly once

---
 opendis/record/__init__.py         | 2 --
 opendis/record/base.py             | 2 +-
 opendis/record/warfare/__init__.py | 6 ------
 3 files changed, 1 insertion(+), 9 deletions(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 50f57b7..4aeb047 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -57,8 +57,6 @@ def getStandardVariableClass(
 
         def serialize(self, outputStream: DataOutputStream) -> None:
             super().serialize(outputStream)
-            outputStream.write_uint32(self.recordType)
-            outputStream.write_uint16(self.recordLength)
             outputStream.write_bytes(self.data)
 
         def parse(self,
diff --git a/opendis/record/base.py b/opendis/record/base.py
index 735025f..455501b 100644
--- a/opendis/record/base.py
+++ b/opendis/record/base.py
@@ -85,7 +85,7 @@ class StandardVariableRecord(VariableRecord):
         """Serialize the record to the output stream."""
         super().serialize(outputStream)
         outputStream.write_uint32(self.recordType)
-        outputStream.write_uint32(self.recordLength)
+        outputStream.write_uint16(self.recordLength)
 
     @abstractmethod
     def parse(self,  # pyright: ignore [reportIncompatibleMethodOverride]
diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index d0ea1dd..04e56d3 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -74,8 +74,6 @@ class DirectedEnergyDamage(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.damageLocation.serialize(outputStream)
         outputStream.write_float32(self.damageDiameter)
@@ -138,8 +136,6 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         outputStream.write_uint16(self.beamAntennaPatternCount)
         outputStream.write_uint16(
@@ -209,8 +205,6 @@ class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
 
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
-        outputStream.write_uint32(self.recordType)
-        outputStream.write_uint16(self.recordLength)
         outputStream.write_uint16(self.padding)
         self.targetSpotLocation.serialize(outputStream)
         self.targetSpotEntityLocation.serialize(outputStream)
-- 
2.43.0


From 5ee800b41ebdf5d4490ab3ad571b5807b5adcf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 08/54] fix: unknown standard variable records are accepted as
 placeholders of the expected family

---
 opendis/record/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/record/__init__.py b/opendis/record/__init__.py
index 4aeb047..3482a94 100644
--- a/opendis/record/__init__.py
+++ b/opendis/record/__init__.py
@@ -45,7 +45,7 @@ def getStandardVariableClass(
 
     # Declare a local class since the recordType class variable will need to be
     # set for each new unrecognised record type.
-    class UnknownStandardVariableRecord(base.StandardVariableRecord):
+    class UnknownStandardVariableRecord(expectedType):
         """A placeholder class for unrecognised Standard Variable Records."""
         recordType: enum32
 
-- 
2.43.0


From 058d6bf9f02baded5e4ec29b843c8019b47d78af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 09/54] fix: DE Area Aimpoint reports its full size and is
 padded to 64 bits

---
 opendis/record/warfare/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 04e56d3..5f8916e 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -126,13 +126,20 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
     def directedEnergyTargetEnergyDepositionCount(self) -> uint16:
         return len(self.directedEnergyTargetEnergyDepositions)
 
-    def marshalledSize(self) -> int:
-        size = 8  # recordType, recordLength, padding
+    def _unpaddedSize(self) -> int:
+        size = 12  # recordType, recordLength, padding, record counts
         for record in self.beamAntennaPatterns:
             size += record.marshalledSize()
         for record in self.directedEnergyTargetEnergyDepositions:
             size += record.marshalledSize()
         return size
+
+    def _trailingPaddingSize(self) -> int:
+        # The record length shall be a multiple of 64 bits
+        return -self._unpaddedSize() % 8
+
+    def marshalledSize(self) -> int:
+        return self._unpaddedSize() + self._trailingPaddingSize()
     
     def serialize(self, outputStream: DataOutputStream) -> None:
         super().serialize(outputStream)
@@ -147,6 +154,8 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         for record in self.directedEnergyTargetEnergyDepositions:
             record.serialize(outputStream)
 
+        outputStream.write_bytes(bytes(self._trailingPaddingSize()))
+
     def parse(self,
               inputStream: DataInputStream,
               bytelength: int) -> None:
@@ -163,6 +172,7 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
             self.directedEnergyTargetEnergyDepositions.append(record)
+        inputStream.read_bytes(self._trailingPaddingSize())
 
 
 class DirectedEnergyPrecisionAimpoint(DamageDescriptionRecord):
-- 
2.43.0


From 44df472a81bf5d3eb8a5f573d9c30a3841325447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 10/54] fix: refuse a standard variable record whose length is
 not that of its type

---
 opendis/dis7.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1b0036b..32fe0eb 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -65,6 +65,11 @@ def parseStandardVariableRecord(
     svClass = getStandardVariableClass(recordType, expectedType)
     sv_instance = svClass()
     sv_instance.parse(inputStream, recordLength)
+    if sv_instance.marshalledSize() != recordLength:
+        raise ValueError(
+            f"Record Type {recordType}: recordLength {recordLength} does not "
+            f"match the {sv_instance.marshalledSize()} bytes of the record"
+        )
     return sv_instance
 
 
-- 
2.43.0


From f0a2b0257a92bfefbb31d688f03d765ccc0ab974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:08 +0000
Subject: [PATCH 11/54] fix: unknown antenna patterns keep all the bytes of the
 pattern

---
 opendis/record/radio/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opendis/record/radio/__init__.py b/opendis/record/radio/__init__.py
index 8667ef5..ec63bc5 100644
--- a/opendis/record/radio/__init__.py
+++ b/opendis/record/radio/__init__.py
@@ -95,8 +95,7 @@ class UnknownAntennaPattern(AntennaPatternRecord):
               bytelength: int) -> None:
         # Validate bytelength argument by calling base method
         super().parse(inputStream, bytelength)
-        # Read the remaining bytes in the record
-        self.data = inputStream.read_bytes(bytelength - 6)
+        self.data = inputStream.read_bytes(bytelength)
 
 
 # Implementations
-- 
2.43.0


From 39ce9d6cb636c408526a3c28acc1beeb29c9c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 12/54] fix: bit fields refuse values that do not fit instead
 of truncating them

---
 opendis/record/bitfield.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index a3df951..c8ed124 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -95,10 +95,22 @@ def bitfield(name: str,
     for field_name, ftype, bits in fields:
         struct_fields.append(_field(field_name, ftype, bits, base_ctype))
 
+    field_bits = {field_name: bits for field_name, _, bits in fields}
+
     # Create the struct class
     class Bitfield(BigEndianStructure):
         _fields_ = struct_fields
 
+        def __setattr__(self, attr: str, value: int) -> None:
+            # ctypes would silently drop the bits that do not fit. This is also
+            # called for the arguments of the constructor.
+            bits = field_bits.get(attr)
+            if bits is not None and not 0 <= value < 1 << bits:
+                raise ValueError(
+                    f"{name}.{attr} must fit in {bits} bits, got {value!r}"
+                )
+            super().__setattr__(attr, value)
+
         @staticmethod
         def marshalledSize() -> int:
             return bytesize
-- 
2.43.0


From ef1489d64f8418f60a278a45a8a642fcb9f1153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 13/54] fix: 24-bit bitfields can be created

---
 opendis/record/bitfield.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opendis/record/bitfield.py b/opendis/record/bitfield.py
index c8ed124..c0d3384 100644
--- a/opendis/record/bitfield.py
+++ b/opendis/record/bitfield.py
@@ -116,15 +116,17 @@ def bitfield(name: str,
             return bytesize
 
         def serialize(self, outputStream: DataOutputStream) -> None:
-            outputStream.write_bytes(bytes(self))
+            outputStream.write_bytes(bytes(self)[:bytesize])
 
         @classmethod
         def parse(cls, inputStream: DataInputStream) -> "Bitfield":
-            return cls.from_buffer_copy(inputStream.read_bytes(bytesize))
+            data = inputStream.read_bytes(bytesize)
+            return cls.from_buffer_copy(data.ljust(sizeof(cls), b'\0'))
 
-    # Sanity check: ensure the struct size matches expected size
-    assert sizeof(Bitfield) == bytesize, \
-        f"Bitfield size mismatch: expected {bytesize}, got {sizeof(Bitfield)}"
+    # Sanity check: the fields share one unit of the base type. A 24-bit bitfield
+    # takes the first three bytes of its 32-bit unit.
+    assert sizeof(Bitfield) == sizeof(base_ctype), \
+        f"Bitfield size mismatch: expected {sizeof(base_ctype)}, got {sizeof(Bitfield)}"
 
     # Assign the class name
     Bitfield.__name__ = name
-- 
2.43.0


From 52d971c26a94abfe563337a7b961dc1e7a1ffae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 14/54] fix: Transmitter parameter sections are delimited by
 their length fields

---
 opendis/dis7.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 32fe0eb..5e8935e 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5085,16 +5085,17 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
                     radio = SimpleIntercomRadio()
                 else:
                     radio = GenericRadio()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem in (2, 3, 4):  # HAVE QUICK I | II | HAVE QUICK IIA
                 radio = BasicHaveQuickMP()
-                radio.parse(inputStream)
             elif self.modulationType.radioSystem == 6:  # CCTT SINCGARS
                 radio = CCTTSincgarsMP()
-                radio.parse(inputStream)
             else:  # Other | Unknown
                 radio = UnknownRadio()
-                radio.parse(inputStream, bytelength=modulationParametersLength)
+            if radio.marshalledSize() != modulationParametersLength:
+                # The length field delimits the record: keep the bytes of a
+                # record that is not laid out as expected.
+                radio = UnknownRadio()
+            radio.parse(inputStream, bytelength=modulationParametersLength)
             self.modulationParameters = radio
         else:
             self.modulationParameters = None
@@ -5103,13 +5104,14 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         if antennaPatternLength > 0:
             if self.antennaPatternType == 1:
                 self.antennaPattern = BeamAntennaPattern()
-                self.antennaPattern.parse(inputStream)
             else:
                 self.antennaPattern = UnknownAntennaPattern()
-                self.antennaPattern.parse(
-                    inputStream,
-                    bytelength=antennaPatternLength
-                )
+            if self.antennaPattern.marshalledSize() != antennaPatternLength:
+                self.antennaPattern = UnknownAntennaPattern()
+            self.antennaPattern.parse(
+                inputStream,
+                bytelength=antennaPatternLength
+            )
         else:
             self.antennaPattern = None
         
-- 
2.43.0


From 1eebc7d3aa8c777477a43a62c38401b219123166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 15/54] fix: entity marking characters are unsigned octets

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 5e8935e..a78f99b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1239,14 +1239,14 @@ class EntityMarking:
         """serialize the class"""
         outputStream.write_unsigned_byte(self.characterSet)
         for idx in range(0, 11):
-            outputStream.write_byte(self.characters[idx])
+            outputStream.write_unsigned_byte(self.characters[idx])
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.characterSet = inputStream.read_unsigned_byte()
         self.characters = [0] * 11
         for idx in range(0, 11):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
             self.characters[idx] = val
 
 
-- 
2.43.0


From 7d2f19d76c56d5727c625cc80b998a5b8ff897a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 16/54] fix: honour the constructor arguments of
 AggregateMarking, EngineFuel, AngularVelocityVector and DataQueryPdu

---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a78f99b..811d34b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1976,13 +1976,13 @@ class EngineFuel:
                  fuelMeasurementUnits: enum8 = 0,  # [UID 328]
                  fuelType: enum8 = 0,  # [UID 413]
                  fuelLocation: enum8 = 0):  # [UID 329]
-        self.fuelQuantity = 0
+        self.fuelQuantity = fuelQuantity
         """Fuel quantity, units specified by next field"""
-        self.fuelMeasurementUnits = 0
+        self.fuelMeasurementUnits = fuelMeasurementUnits
         """Units in which the fuel is measured"""
-        self.fuelType = 0
+        self.fuelType = fuelType
         """Type of fuel"""
-        self.fuelLocation = 0
+        self.fuelLocation = fuelLocation
         """Location of fuel as related to entity. See section 14 of EBV document"""
         self.padding: uint8 = 0
 
@@ -2713,11 +2713,11 @@ class AngularVelocityVector:
     """
 
     def __init__(self, x: float32 = 0.0, y: float32 = 0.0, z: float32 = 0.0):
-        self.x = 0
+        self.x = x
         """angular velocity about the x axis"""
-        self.y = 0
+        self.y = y
         """angular velocity about the y axis"""
-        self.z = 0
+        self.z = z
         """angular velocity about the zaxis"""
 
     def serialize(self, outputStream):
@@ -2745,7 +2745,7 @@ class AggregateMarking:
                  characters=None):
         self.characterSet = characterSet
         """The character set"""
-        self.characters = [0] * 31
+        self.characters = characters or [0] * 31
         """The characters"""
 
     def serialize(self, outputStream):
@@ -4074,8 +4074,8 @@ class DataQueryPdu(SimulationManagementFamilyPdu):
                  fixedDatumIDs: list[enum32] | None = None,
                  variableDatumIDs: list[enum32] | None = None):
         super(DataQueryPdu, self).__init__()
-        self.requestID = 0
-        self.timeInterval = 0
+        self.requestID = requestID
+        self.timeInterval = timeInterval
         """time issues between issues of Data PDUs. Zero means send once only."""
         # Use DataQueryDatumSpecification
         self._dataQuery = DataQueryDatumSpecification(fixedDatumIDs or [],
-- 
2.43.0


From 39d7a09c9ef00142e76905c6b1b5024f913d5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 17/54] fix: AttachedParts encodes its attachedPartType

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 811d34b..21b4ebf 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -805,7 +805,7 @@ class AttachedParts:
         outputStream.write_unsigned_byte(self.detachedIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        self.attachedPartType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -813,7 +813,7 @@ class AttachedParts:
         self.detachedIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.attachedPartType.parse(inputStream)
 
 
 class Attribute:
-- 
2.43.0


From 18b7dc02da468ad18ce0cbe4753a34aefb724372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 18/54] fix: ArticulatedParts parameter value is a 32-bit float

---
 opendis/dis7.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 21b4ebf..3346849 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -894,6 +894,7 @@ class ArticulatedParts:
         """the type of parameter represented, 32 bit enumeration"""
         self.parameterValue = parameterValue
         """The definition of the 64 bits shall be determined based on the type of parameter specified in the Parameter Type field"""
+        self.padding: uint32 = 0
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -901,7 +902,9 @@ class ArticulatedParts:
         outputStream.write_unsigned_byte(self.changeIndicator)
         outputStream.write_unsigned_short(self.partAttachedTo)
         outputStream.write_unsigned_int(self.parameterType)
-        outputStream.write_long(self.parameterValue)
+        # 64-bit field: 32-bit floating point value followed by 32 bits of padding
+        outputStream.write_float(self.parameterValue)
+        outputStream.write_unsigned_int(self.padding)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -909,7 +912,8 @@ class ArticulatedParts:
         self.changeIndicator = inputStream.read_unsigned_byte()
         self.partAttachedTo = inputStream.read_unsigned_short()
         self.parameterType = inputStream.read_unsigned_int()
-        self.parameterValue = inputStream.read_long()
+        self.parameterValue = inputStream.read_float()
+        self.padding = inputStream.read_unsigned_int()
 
 
 class ObjectType:
-- 
2.43.0


From 7b76d380b1904ac7e19e07acdefc85ae4b120259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:10 +0000
Subject: [PATCH 19/54] fix: IFFData writes the record length that its parse
 method expects

---
 opendis/dis7.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3346849..794d543 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -189,7 +189,8 @@ class IFFData:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.recordType)
-        outputStream.write_unsigned_short(len(self.iffData))
+        # The record length includes the record type and record length fields
+        outputStream.write_unsigned_short(6 + len(self.iffData))
         for anObj in self.iffData:
             outputStream.write_unsigned_byte(anObj)
         """TODO add padding to end on 32-bit boundary"""
-- 
2.43.0


From c2c7be3f38d2bdec32f27e2c10dd44f88f8177b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 20/54] fix: GridAxisDescriptorVariable coordinates are 16-bit
 integers

---
 opendis/dis7.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 794d543..eb2fa4a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2144,7 +2144,7 @@ class GridAxisDescriptorVariable:
         outputStream.write_double(self.coordinateScaleXi)
         outputStream.write_double(self.coordinateOffsetXi)
         for anObj in self.xiValues:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_short(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2160,9 +2160,7 @@ class GridAxisDescriptorVariable:
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
         for idx in range(0, self.numberOfPointsOnXiAxis):
-            element = null()
-            element.parse(inputStream)
-            self.xiValues.append(element)
+            self.xiValues.append(inputStream.read_unsigned_short())
 
 
 class SupplyQuantity:
-- 
2.43.0


From 475bbd39c674e2a96fae975e5b30376f3884dfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 21/54] fix: SilentEntitySystem appearance records are 32-bit
 values

---
 opendis/dis7.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index eb2fa4a..34f9684 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2213,7 +2213,7 @@ class SilentEntitySystem:
         outputStream.write_unsigned_short(self.numberOfAppearanceRecords)
         self.entityType.serialize(outputStream)
         for anObj in self.appearanceRecordList:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -2221,9 +2221,7 @@ class SilentEntitySystem:
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
         for idx in range(0, numberOfAppearanceRecords):
-            element = null()
-            element.parse(inputStream)
-            self.appearanceRecordList.append(element)
+            self.appearanceRecordList.append(inputStream.read_unsigned_int())
 
 
 class SilentAggregateSystem:
-- 
2.43.0


From 789c5ed3ce4522b24f29756128491ac57f10b202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 22/54] fix: SilentAggregateSystem encodes its aggregateType

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 34f9684..fe57c9b 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2240,7 +2240,7 @@ class SilentAggregateSystem:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_short(self.numberOfAggregates)
-        self.entityType.serialize(outputStream)
+        self.aggregateType.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-- 
2.43.0


From 04a13c03c7903e75d4885ed99fda27bef4e4f904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 23/54] fix: StandardVariableSpecification decodes its records

---
 opendis/dis7.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index fe57c9b..41249b3 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2590,16 +2590,14 @@ class Munition:
 
 class StandardVariableSpecification:
     """Section 6.2.83
-    
-    Does not work, and causes failure in anything it is embedded in.
+
+    A list of Standard Variable records.
     """
 
     def __init__(self,
                  standardVariables: list | None = None):
         self.standardVariables = standardVariables or []
-        """variable length list of standard variables.
-        The class type and length here are WRONG and will cause the incorrect
-        serialization of any class in which it is embedded."""
+        """variable length list of standard variables."""
 
     @property
     def numberOfStandardVariableRecords(self) -> uint16:
@@ -2616,9 +2614,10 @@ class StandardVariableSpecification:
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
         for idx in range(0, numberOfStandardVariableRecords):
-            element = null()
-            element.parse(inputStream)
-            self.standardVariables.append(element)
+            self.standardVariables.append(parseStandardVariableRecord(
+                inputStream,
+                base.StandardVariableRecord
+            ))
 
 
 class Vector2Float:
-- 
2.43.0


From 1a328c043f805572c236884be58e446af7bd75b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 24/54] fix: Environment encodes its padding octet

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 41249b3..513d3c0 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2663,14 +2663,14 @@ class Environment:
         outputStream.write_unsigned_int(self.environmentType)
         outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
-        outputStream.write_unsigned_byte(self.padding)
+        outputStream.write_unsigned_byte(self.padding0)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
         self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
-        self.padding = inputStream.read_unsigned_byte()
+        self.padding0 = inputStream.read_unsigned_byte()
 
 
 class AcousticEmitter:
-- 
2.43.0


From f2eef82289c1d6be0d7f4c78531a7b2ee27ee12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 25/54] fix: EnvironmentGeneral can be encoded and its length
 field is 16 bits wide

---
 opendis/dis7.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 513d3c0..82c94b9 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3189,7 +3189,7 @@ class EnvironmentGeneral:
         """length, in bits"""
         self.index = index
         """Identify the sequentially numbered record index"""
-        self.padding = 0
+        self.padding1 = 0
         self.geometry = geometry
         """Geometry or state record"""
         self.padding2 = 0
@@ -3198,7 +3198,7 @@ class EnvironmentGeneral:
     def serialize(self, outputStream):
         """serialize the class"""
         outputStream.write_unsigned_int(self.environmentType)
-        outputStream.write_unsigned_byte(self.length)
+        outputStream.write_unsigned_short(self.length)
         outputStream.write_unsigned_byte(self.index)
         outputStream.write_unsigned_byte(self.padding1)
         outputStream.write_unsigned_byte(self.geometry)
@@ -3207,7 +3207,7 @@ class EnvironmentGeneral:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         self.environmentType = inputStream.read_unsigned_int()
-        self.length = inputStream.read_unsigned_byte()
+        self.length = inputStream.read_unsigned_short()
         self.index = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_byte()
         self.geometry = inputStream.read_unsigned_byte()
-- 
2.43.0


From a903c036b7b0351e6439229270b4dd398a70709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 26/54] fix: RecordSpecification decodes its record sets

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 82c94b9..407cc95 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3290,7 +3290,7 @@ class RecordSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecordSets):
-            element = null()
+            element = RecordSpecificationElement()
             element.parse(inputStream)
             self.recordSets.append(element)
 
-- 
2.43.0


From 2e9d33151a5fb3091219a15ae18f9c525395ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 27/54] fix: PduHeader has a 16-bit length and an 8-bit status

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 407cc95..a292c61 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3410,8 +3410,8 @@ class PduHeader:
         outputStream.write_unsigned_byte(self.pduType)
         outputStream.write_unsigned_byte(self.protocolFamily)
         outputStream.write_unsigned_int(self.timestamp)
-        outputStream.write_unsigned_byte(self.pduLength)
-        outputStream.write_unsigned_short(self.pduStatus)
+        outputStream.write_unsigned_short(self.pduLength)
+        outputStream.write_unsigned_byte(self.pduStatus)
         outputStream.write_unsigned_byte(self.padding)
 
     def parse(self, inputStream):
@@ -3421,8 +3421,8 @@ class PduHeader:
         self.pduType = inputStream.read_unsigned_byte()
         self.protocolFamily = inputStream.read_unsigned_byte()
         self.timestamp = inputStream.read_unsigned_int()
-        self.pduLength = inputStream.read_unsigned_byte()
-        self.pduStatus = inputStream.read_unsigned_short()
+        self.pduLength = inputStream.read_unsigned_short()
+        self.pduStatus = inputStream.read_unsigned_byte()
         self.padding = inputStream.read_unsigned_byte()
 
 
-- 
2.43.0


From e8cf95f9f93614a49d81a788c622607a6fb73f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 28/54] fix: SeparationVP encodes its station location record

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index a292c61..abb6c31 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3613,7 +3613,7 @@ class SeparationVP:
         outputStream.write_unsigned_byte(self.padding1)
         self.parentEntityID.serialize(outputStream)
         outputStream.write_unsigned_short(self.padding2)
-        outputStream.write_unsigned_int(self.stationLocation)
+        self.stationLocation.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -3623,7 +3623,7 @@ class SeparationVP:
         self.padding1 = inputStream.read_unsigned_byte()
         self.parentEntityID.parse(inputStream)
         self.padding2 = inputStream.read_unsigned_short()
-        self.stationLocation = inputStream.read_unsigned_int()
+        self.stationLocation.parse(inputStream)
 
 
 class EmitterSystem:
-- 
2.43.0


From 296c0adea43c063b65233bae59d024580468d6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 29/54] fix: StorageFuelReload reload times are 32 bits wide

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index abb6c31..346cab8 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -2982,8 +2982,8 @@ class StorageFuelReload:
         """serialize the class"""
         outputStream.write_unsigned_int(self.standardQuantity)
         outputStream.write_unsigned_int(self.maximumQuantity)
-        outputStream.write_unsigned_byte(self.standardQuantityReloadTime)
-        outputStream.write_unsigned_byte(self.maximumQuantityReloadTime)
+        outputStream.write_unsigned_int(self.standardQuantityReloadTime)
+        outputStream.write_unsigned_int(self.maximumQuantityReloadTime)
         outputStream.write_unsigned_byte(self.fuelMeasurementUnits)
         outputStream.write_unsigned_byte(self.fuelType)
         outputStream.write_unsigned_byte(self.fuelLocation)
@@ -2993,8 +2993,8 @@ class StorageFuelReload:
         """Parse a message. This may recursively call embedded objects."""
         self.standardQuantity = inputStream.read_unsigned_int()
         self.maximumQuantity = inputStream.read_unsigned_int()
-        self.standardQuantityReloadTime = inputStream.read_unsigned_byte()
-        self.maximumQuantityReloadTime = inputStream.read_unsigned_byte()
+        self.standardQuantityReloadTime = inputStream.read_unsigned_int()
+        self.maximumQuantityReloadTime = inputStream.read_unsigned_int()
         self.fuelMeasurementUnits = inputStream.read_unsigned_byte()
         self.fuelType = inputStream.read_unsigned_byte()
         self.fuelLocation = inputStream.read_unsigned_byte()
-- 
2.43.0


From 221836d7d8a4da49fdf00ce03533ef20222346ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 30/54] fix: variable datums whose length is not a whole number
 of octets stay aligned and complete

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 346cab8..d30aeec 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3324,7 +3324,7 @@ class VariableDatum:
         """serialize the class"""
         outputStream.write_unsigned_int(self.variableDatumID)
         outputStream.write_unsigned_int(self.variableDatumLength)
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             outputStream.write_unsigned_byte(self.variableData[x])
 
         #send padding
@@ -3335,7 +3335,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
-        for x in range(self.variableDatumLength // 8):  # length is in bits
+        for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
         # Skip over padding
-- 
2.43.0


From 1e1f873ab0c5186883e1d49a12eeec3371e87593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 31/54] fix: PduSuperclass keeps the protocol family it was
 given

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d30aeec..df14f8c 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -3454,7 +3454,7 @@ class PduSuperclass:
         
         if protocolFamily is None and not hasattr(self, 'pduType'):
             raise ValueError("protocolFamily must be set on subclasses of PduSuperclass or passed in via init")
-        elif pduType is not None:
+        elif protocolFamily is not None:
             self.protocolFamily = protocolFamily
         """value that refers to the protocol family, eg SimulationManagement, et"""
         
-- 
2.43.0


From b73ebe1614c00fd53b6db64785b90bc7e760b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 32/54] fix: ClockTime.hour is a signed 32-bit integer

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index df14f8c..89c31cd 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -1353,12 +1353,12 @@ class ClockTime:
 
     def serialize(self, outputStream):
         """serialize the class"""
-        outputStream.write_unsigned_int(self.hour)
+        outputStream.write_int(self.hour)
         outputStream.write_unsigned_int(self.timePastHour)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
-        self.hour = inputStream.read_unsigned_int()
+        self.hour = inputStream.read_int()
         self.timePastHour = inputStream.read_unsigned_int()
 
 
-- 
2.43.0


From b9306aed14cbfa87ec1e77ec5e30ae93a69f330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 33/54] fix: IntercomSignalPdu encodes and decodes its data
 octets

---
 opendis/dis7.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 89c31cd..ec3f638 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4264,8 +4264,8 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_int(self.sampleRate)
         outputStream.write_unsigned_short(self.dataLength)
         outputStream.write_unsigned_short(self.samples)
-        for anObj in self.data:
-            anObj.serialize(outputStream)
+        for b in self.data:
+            outputStream.write_unsigned_byte(b)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -4280,8 +4280,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
         for idx in range(0, dataLength // 8):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.data.append(element)
 
 
-- 
2.43.0


From 76c7ba1fee9056bed20fa921f6fd805384d4a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 34/54] fix: ResupplyReceivedPdu decodes its supplies

---
 opendis/dis7.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index ec3f638..2353209 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4354,7 +4354,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
         for idx in range(0, numberOfSupplyTypes):
-            element = null()
+            element = SupplyQuantity()
             element.parse(inputStream)
             self.supplies.append(element)
 
-- 
2.43.0


From 098c51dfa8bb31e969732a69082037b22c78e5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 35/54] fix: RecordQueryReliablePdu encodes and decodes its
 record ids

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 2353209..b1a4248 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6569,7 +6569,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         outputStream.write_unsigned_int(self.time)
         outputStream.write_unsigned_int(self.numberOfRecords)
         for anObj in self.recordIDs:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_int(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -6582,8 +6582,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
         for idx in range(0, numberOfRecords):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
 
 
-- 
2.43.0


From d21efae9265be8e23a1545b655aa57ed339648fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 36/54] fix: MinefieldResponseNackPdu encodes and decodes the
 missing sequence numbers

---
 opendis/dis7.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index b1a4248..d59127a 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7288,7 +7288,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         outputStream.write_unsigned_byte(self.requestID)
         outputStream.write_unsigned_byte(self.numberOfMissingPdus)
         for anObj in self.missingPduSequenceNumbers:
-            anObj.serialize(outputStream)
+            outputStream.write_unsigned_byte(anObj)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
@@ -7299,8 +7299,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
         for idx in range(0, numberOfMissingPdus):
-            element = null()
-            element.parse(inputStream)
+            element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
 
 
-- 
2.43.0


From be3f219f7b3042ee46fc43e2bca03c2e7578656b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 37/54] fix: SeesPdu decodes its propulsion and vectoring
 nozzle systems

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d59127a..72f5433 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7114,12 +7114,12 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
         for idx in range(0, numberOfPropulsionSystems):
-            element = null()
+            element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
         for idx in range(0, numberOfVectoringNozzleSystems):
-            element = null()
+            element = VectoringNozzleSystem()
             element.parse(inputStream)
             self.vectoringSystemData.append(element)
 
-- 
2.43.0


From cf6be070701ea18d62734e7a3d0fb96f155956ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 38/54] fix: IntercomControlPdu encodes and decodes its
 parameter records

---
 opendis/dis7.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 72f5433..b85e990 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6896,7 +6896,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
                  command: enum8 = 0,  # [UID 182]
                  masterEntityID: "EntityIdentifier | UnattachedIdentifier | None" = None,
                  masterCommunicationsDeviceID: uint16 = 0,
-                 intercomParameters: "IntercomCommunicationsParameters | None" = None):
+                 intercomParameters: list["IntercomCommunicationsParameters"] | None = None):
         super(IntercomControlPdu, self).__init__()
         self.controlType = controlType
         self.communicationsChannelType = communicationsChannelType
@@ -6915,14 +6915,13 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         """eid of the entity that has created this intercom channel."""
         self.masterCommunicationsDeviceID = masterCommunicationsDeviceID
         """specific intercom device that has created this intercom channel"""
-        self.intercomParameters = intercomParameters
-        """^^^This is wrong the length of the data field is variable. Using a long for now."""
+        self.intercomParameters = intercomParameters or []
+        """list of intercom communications parameters records"""
 
     @property
     def intercomParametersLength(self) -> uint32:
-        # FIXME: This is incorrect
-        #        It should return the number of bytes in intercomParameters
-        return len(self.intercomParameters)
+        """Length of the intercom parameters in bytes; each record takes 8"""
+        return 8 * len(self.intercomParameters)
 
     def serialize(self, outputStream):
         """serialize the class"""
@@ -6930,7 +6929,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         outputStream.write_unsigned_byte(self.controlType)
         outputStream.write_unsigned_byte(self.communicationsChannelType)
         self.sourceEntityID.serialize(outputStream)
-        outputStream.write_unsigned_byte(self.sourceCommunicationsDeviceID)
+        outputStream.write_unsigned_short(self.sourceCommunicationsDeviceID)
         outputStream.write_unsigned_byte(self.sourceLineID)
         outputStream.write_unsigned_byte(self.transmitPriority)
         outputStream.write_unsigned_byte(self.transmitLineState)
@@ -6947,7 +6946,7 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.controlType = inputStream.read_unsigned_byte()
         self.communicationsChannelType = inputStream.read_unsigned_byte()
         self.sourceEntityID.parse(inputStream)
-        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_byte()
+        self.sourceCommunicationsDeviceID = inputStream.read_unsigned_short()
         self.sourceLineID = inputStream.read_unsigned_byte()
         self.transmitPriority = inputStream.read_unsigned_byte()
         self.transmitLineState = inputStream.read_unsigned_byte()
@@ -6955,8 +6954,16 @@ class IntercomControlPdu(RadioCommunicationsFamilyPdu):
         self.masterEntityID.parse(inputStream)
         self.masterCommunicationsDeviceID = inputStream.read_unsigned_short()
         intercomParametersLength = inputStream.read_unsigned_int()
-        # TODO: Validate intercomParametersLength against rest of input stream?
-        self.intercomParameters = IntercomCommunicationsParameters.parse(inputStream)
+        if intercomParametersLength % 8 != 0:
+            raise ValueError(
+                f"intercomParametersLength {intercomParametersLength} is not "
+                "a whole number of records"
+            )
+        self.intercomParameters = []
+        for idx in range(0, intercomParametersLength // 8):
+            element = IntercomCommunicationsParameters()
+            element.parse(inputStream)
+            self.intercomParameters.append(element)
 
 
 class SignalPdu(RadioCommunicationsFamilyPdu):
-- 
2.43.0


From f524e55b910bbc037ee56673b4bc6b2247e8f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 39/54] fix: DirectedEnergyFirePdu encodes and decodes
 cumulativeShotTime

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index b85e990..d841230 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6368,7 +6368,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).serialize(outputStream)
         self.munitionType.serialize(outputStream)
         self.shotStartTime.serialize(outputStream)
-        outputStream.write_float32(self.commulativeShotTime)
+        outputStream.write_float32(self.cumulativeShotTime)
         self.apertureEmitterLocation.serialize(outputStream)
         outputStream.write_float32(self.apertureDiameter)
         outputStream.write_float32(self.wavelength)
@@ -6388,7 +6388,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         super(DirectedEnergyFirePdu, self).parse(inputStream)
         self.munitionType.parse(inputStream)
         self.shotStartTime.parse(inputStream)
-        self.commulativeShotTime = inputStream.read_float32()
+        self.cumulativeShotTime = inputStream.read_float32()
         self.apertureEmitterLocation.parse(inputStream)
         self.apertureDiameter = inputStream.read_float32()
         self.wavelength = inputStream.read_float32()
-- 
2.43.0


From 106b1bebb8ee93eb499a3f068ca5b39a654731d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 40/54] fix: PointObjectStatePdu appearance is a 32-bit and a
 16-bit bit record, not a float

---
 opendis/dis7.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index d841230..bd90c3f 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5525,9 +5525,10 @@ class PointObjectStatePdu(SyntheticEnvironmentFamilyPdu):
                  objectType: ObjectType | None = None,
                  objectLocation: WorldCoordinates | None = None,
                  objectOrientation: EulerAngles | None = None,
-                 objectAppearance: struct32 | struct16 = 0,  # [UID 229]
+                 objectAppearance: struct32 = 0,  # [UID 229]
                  requesterID: SimulationAddress | None = None,
-                 receivingID: SimulationAddress | None = None):
+                 receivingID: SimulationAddress | None = None,
+                 generalObjectAppearance: struct16 = 0):  # [UID 229]
         super(PointObjectStatePdu, self).__init__()
         # TODO: Validate ObjectID?
         self.objectID = objectID or EntityIdentifier()
@@ -5547,7 +5548,9 @@ class PointObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.objectOrientation = objectOrientation or EulerAngles()
         """Object orientation"""
         self.objectAppearance = objectAppearance
-        """Object appearance"""
+        """Specific object appearance"""
+        self.generalObjectAppearance = generalObjectAppearance
+        """General object appearance"""
         self.pad1: uint16 = 0
         self.requesterID = requesterID or SimulationAddress()
         """requester ID"""
@@ -5566,7 +5569,9 @@ class PointObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.objectType.serialize(outputStream)
         self.objectLocation.serialize(outputStream)
         self.objectOrientation.serialize(outputStream)
-        outputStream.write_double(self.objectAppearance)
+        outputStream.write_unsigned_int(self.objectAppearance)
+        outputStream.write_unsigned_short(self.generalObjectAppearance)
+        outputStream.write_unsigned_short(self.pad1)
         self.requesterID.serialize(outputStream)
         self.receivingID.serialize(outputStream)
         outputStream.write_unsigned_int(self.pad2)
@@ -5582,7 +5587,9 @@ class PointObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.objectType.parse(inputStream)
         self.objectLocation.parse(inputStream)
         self.objectOrientation.parse(inputStream)
-        self.objectAppearance = inputStream.read_double()
+        self.objectAppearance = inputStream.read_unsigned_int()
+        self.generalObjectAppearance = inputStream.read_unsigned_short()
+        self.pad1 = inputStream.read_unsigned_short()
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
         self.pad2 = inputStream.read_unsigned_int()
-- 
2.43.0


From 14c82244053d79ec72724484872d84604aa59102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 41/54] fix: ReceiverPdu carries the radio reference ID and
 radio number of the receiver

---
 opendis/dis7.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index bd90c3f..645fa48 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6756,8 +6756,14 @@ class ReceiverPdu(RadioCommunicationsFamilyPdu):
                  receiverState: enum16 = 0,  # [UID 179]
                  receivedPower: float32 = 0.0,  # in decibel milliwatts
                  transmitterEntityID: EntityIdentifier | ObjectIdentifier | UnattachedIdentifier | None = None,
-                 transmitterRadioId: uint16 = 0):
+                 transmitterRadioId: uint16 = 0,
+                 radioReferenceID: EntityIdentifier | ObjectIdentifier | UnattachedIdentifier | None = None,
+                 radioNumber: uint16 = 0):
         super(ReceiverPdu, self).__init__()
+        self.radioReferenceID = radioReferenceID or EntityIdentifier()
+        """ID of the entity or object the receiving radio belongs to"""
+        self.radioNumber = radioNumber
+        """ID of the receiving radio"""
         self.receiverState = receiverState
         """encoding scheme used, and enumeration"""
         self.padding1: uint16 = 0
@@ -6771,6 +6777,8 @@ class ReceiverPdu(RadioCommunicationsFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(ReceiverPdu, self).serialize(outputStream)
+        self.radioReferenceID.serialize(outputStream)
+        outputStream.write_unsigned_short(self.radioNumber)
         outputStream.write_unsigned_short(self.receiverState)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_float(self.receivedPower)
@@ -6780,6 +6788,8 @@ class ReceiverPdu(RadioCommunicationsFamilyPdu):
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(ReceiverPdu, self).parse(inputStream)
+        self.radioReferenceID.parse(inputStream)
+        self.radioNumber = inputStream.read_unsigned_short()
         self.receiverState = inputStream.read_unsigned_short()
         self.padding1 = inputStream.read_unsigned_short()
         self.receivedPower = inputStream.read_float()
-- 
2.43.0


From 82b40893dcf40690bcad3321d55adfe63413ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 42/54] fix: EventReportReliablePdu.eventType is 32 bits wide

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 645fa48..1025879 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7267,14 +7267,14 @@ class EventReportReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportReliablePdu, self).serialize(outputStream)
-        outputStream.write_unsigned_short(self.eventType)
+        outputStream.write_unsigned_int(self.eventType)
         outputStream.write_unsigned_int(self.pad1)
         self._datums.serialize(outputStream)
 
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         super(EventReportReliablePdu, self).parse(inputStream)
-        self.eventType = inputStream.read_unsigned_short()
+        self.eventType = inputStream.read_unsigned_int()
         self.pad1 = inputStream.read_unsigned_int()
         self._datums.parse(inputStream)
 
-- 
2.43.0


From e2ddba9a23ba3fc5cdaa368d159697dd482bc26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 43/54] fix: EventReportPdu gives access to its datum records
 like its sibling PDUs

---
 opendis/dis7.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1025879..bced70d 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5493,6 +5493,22 @@ class EventReportPdu(SimulationManagementFamilyPdu):
         self._datums = DatumSpecification(fixedDatumRecords or [],
                                           variableDatumRecords or [])
 
+    @property
+    def numberOfFixedDatumRecords(self) -> int:
+        return self._datums.numberOfFixedDatumRecords
+
+    @property
+    def numberOfVariableDatumRecords(self) -> int:
+        return self._datums.numberOfVariableDatumRecords
+
+    @property
+    def fixedDatumRecords(self) -> list["FixedDatum"]:
+        return self._datums.fixedDatumRecords
+
+    @property
+    def variableDatumRecords(self) -> list["VariableDatum"]:
+        return self._datums.variableDatumRecords
+
     def serialize(self, outputStream):
         """serialize the class"""
         super(EventReportPdu, self).serialize(outputStream)
-- 
2.43.0


From 4ebce9a46ad45de621d92132ea1e4d5aa4945ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 44/54] fix: AttributePdu declares its PDU type and can be
 constructed

---
 opendis/dis7.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index bced70d..1a549d5 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5344,6 +5344,7 @@ class AttributePdu(EntityInformationFamilyPdu):
     See 5.3.6 for the information requirements and issuance and receipt rules
     for this PDU. INCOMPLETE
     """
+    pduType: enum8 = 72  # [UID 4]
 
     def __init__(self,
                  originatingSimulationAddress: "SimulationAddress | None" = None,
-- 
2.43.0


From 69c30968c7eab0babaff3e46765fc60ddb80f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 45/54] fix: AggregateStatePdu center of mass is in world
 coordinates and velocity a vector

---
 opendis/dis7.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1a549d5..1854faf 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7459,8 +7459,8 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
                  aggregateMarking: "AggregateMarking | None" = None,
                  dimensions: Vector3Float | None = None,
                  orientation: EulerAngles | None = None,
-                 centerOfMass: Vector3Float | None = None,
-                 velocity: WorldCoordinates | None = None,
+                 centerOfMass: WorldCoordinates | None = None,
+                 velocity: Vector3Float | None = None,
                  aggregateIDs: list[AggregateIdentifier] | None = None,
                  entityIDs: list[EntityIdentifier] | None = None,
                  silentAggregateSystems: list[SilentAggregateSystem] | None = None,
@@ -7480,9 +7480,9 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
         self.dimensions = dimensions or Vector3Float()
         """Orientation of the aggregate, average of the orientations of the constituents"""
         self.orientation = orientation or EulerAngles()
-        self.centerOfMass = centerOfMass or Vector3Float()
+        self.centerOfMass = centerOfMass or WorldCoordinates()
         """Aggregates linear velocity. The coordinate system is dependent on the dead reckoning algorithm"""
-        self.velocity = velocity or WorldCoordinates()
+        self.velocity = velocity or Vector3Float()
         """Identify subaggregates that are transmitting Aggregate State PDUs"""
         self.aggregateIDs = aggregateIDs or []
         """Constituent entities transmitting Entity State PDUs"""
-- 
2.43.0


From bfbefb83f99048ef92d426bd6cf489deccc37018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 46/54] fix: AggregateStatePdu pads the id lists to a 32-bit
 boundary

---
 opendis/dis7.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 1854faf..4466629 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -7534,6 +7534,9 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
             aggregateID.serialize(outputStream)
         for entityID in self.entityIDs:
             entityID.serialize(outputStream)
+        # Padding to 32-bit boundary: each id takes 6 octets
+        if (self.numberOfAggregateIDs + self.numberOfEntityIDs) % 2 != 0:
+            outputStream.write_unsigned_short(0)
         for silentAggregateSystem in self.silentAggregateSystems:
             silentAggregateSystem.serialize(outputStream)
         for silentEntitySystem in self.silentEntitySystems:
@@ -7567,6 +7570,8 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
             element = EntityIdentifier()
             element.parse(inputStream)
             self.entityIDs.append(element)
+        if (numberOfAggregateIDs + numberOfEntityIDs) % 2 != 0:
+            inputStream.read_unsigned_short()  # padding to 32-bit boundary
         for idx in range(0, numberOfSilentAggregateSystems):
             element = SilentAggregateSystem()
             element.parse(inputStream)
-- 
2.43.0


From 54a0f6c5a295afcd56479529868226db6fc4fc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 47/54] fix: DesignatorPdu.deadReckoningAlgorithm is unsigned

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4466629..3d9ab04 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4735,7 +4735,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         outputStream.write_float(self.designatorWavelength)
         self.designatorSpotWrtDesignated.serialize(outputStream)
         self.designatorSpotLocation.serialize(outputStream)
-        outputStream.write_byte(self.deadReckoningAlgorithm)
+        outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         outputStream.write_unsigned_short(self.padding1)
         outputStream.write_byte(self.padding2)
         self.entityLinearAcceleration.serialize(outputStream)
@@ -4751,7 +4751,7 @@ class DesignatorPdu(DistributedEmissionsFamilyPdu):
         self.designatorWavelength = inputStream.read_float()
         self.designatorSpotWrtDesignated.parse(inputStream)
         self.designatorSpotLocation.parse(inputStream)
-        self.deadReckoningAlgorithm = inputStream.read_byte()
+        self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_unsigned_short()
         self.padding2 = inputStream.read_byte()
         self.entityLinearAcceleration.parse(inputStream)
-- 
2.43.0


From d631ea834fd419bd872147863bd2d0fe6dc1eabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 48/54] fix: UaPdu.stateChangeIndicator is unsigned

---
 opendis/dis7.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 3d9ab04..4fb5e92 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -6869,7 +6869,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).serialize(outputStream)
         self.emittingEntityID.serialize(outputStream)
         self.eventID.serialize(outputStream)
-        outputStream.write_byte(self.stateChangeIndicator)
+        outputStream.write_unsigned_byte(self.stateChangeIndicator)
         outputStream.write_byte(self.pad)
         outputStream.write_unsigned_short(self.passiveParameterIndex)
         outputStream.write_unsigned_byte(self.propulsionPlantConfiguration)
@@ -6888,7 +6888,7 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         super(UaPdu, self).parse(inputStream)
         self.emittingEntityID.parse(inputStream)
         self.eventID.parse(inputStream)
-        self.stateChangeIndicator = inputStream.read_byte()
+        self.stateChangeIndicator = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_byte()
         self.passiveParameterIndex = inputStream.read_unsigned_short()
         self.propulsionPlantConfiguration = inputStream.read_unsigned_byte()
-- 
2.43.0


From 3211da5b638d9384a31081a4233b61f52e6127a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 49/54] fix: FastEntityStatePdu counts, appearance, marking and
 capabilities are unsigned

---
 opendis/dis7.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 4fb5e92..0493617 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -5798,7 +5798,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_unsigned_short(self.application)
         outputStream.write_unsigned_short(self.entity)
         outputStream.write_unsigned_byte(self.forceId)
-        outputStream.write_byte(len(self.variableParameters))
+        outputStream.write_unsigned_byte(len(self.variableParameters))
         outputStream.write_unsigned_byte(self.entityKind)
         outputStream.write_unsigned_byte(self.domain)
         outputStream.write_unsigned_short(self.country)
@@ -5822,10 +5822,10 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.psi)
         outputStream.write_float(self.theta)
         outputStream.write_float(self.phi)
-        outputStream.write_int(self.entityAppearance)
+        outputStream.write_unsigned_int(self.entityAppearance)
         outputStream.write_unsigned_byte(self.deadReckoningAlgorithm)
         for idx in range(0, 15):
-            outputStream.write_byte(self.otherParameters[idx])
+            outputStream.write_unsigned_byte(self.otherParameters[idx])
 
         outputStream.write_float(self.xAcceleration)
         outputStream.write_float(self.yAcceleration)
@@ -5834,9 +5834,9 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         outputStream.write_float(self.yAngularVelocity)
         outputStream.write_float(self.zAngularVelocity)
         for idx in range(0, 12):
-            outputStream.write_byte(self.marking[idx])
+            outputStream.write_unsigned_byte(self.marking[idx])
 
-        outputStream.write_int(self.capabilities)
+        outputStream.write_unsigned_int(self.capabilities)
         for anObj in self.variableParameters:
             anObj.serialize(outputStream)
 
@@ -5847,7 +5847,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.application = inputStream.read_unsigned_short()
         self.entity = inputStream.read_unsigned_short()
         self.forceId = inputStream.read_unsigned_byte()
-        self.numberOfVariableParameters = inputStream.read_byte()
+        self.numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.entityKind = inputStream.read_unsigned_byte()
         self.domain = inputStream.read_unsigned_byte()
         self.country = inputStream.read_unsigned_short()
@@ -5871,11 +5871,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.psi = inputStream.read_float()
         self.theta = inputStream.read_float()
         self.phi = inputStream.read_float()
-        self.entityAppearance = inputStream.read_int()
+        self.entityAppearance = inputStream.read_unsigned_int()
         self.deadReckoningAlgorithm = inputStream.read_unsigned_byte()
         self.otherParameters = [0] * 15
         for idx in range(0, 15):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.otherParameters[idx] = val
 
@@ -5887,11 +5887,11 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
         self.zAngularVelocity = inputStream.read_float()
         self.marking = [0] * 12
         for idx in range(0, 12):
-            val = inputStream.read_byte()
+            val = inputStream.read_unsigned_byte()
 
             self.marking[idx] = val
 
-        self.capabilities = inputStream.read_int()
+        self.capabilities = inputStream.read_unsigned_int()
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
-- 
2.43.0


From 1390e695ed7d1323ceca9dd032f7ab9d774e6761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 50/54] fix: parse replaces the contents of record lists
 instead of appending to them

---
 opendis/dis7.py | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 0493617..8f298fa 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -109,9 +109,11 @@ class DataQueryDatumSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfFixedDatumIDs = inputStream.read_unsigned_int()
         numberOfVariableDatumIDs = inputStream.read_unsigned_int()
+        self.fixedDatumIDs = []
         for idx in range(0, numberOfFixedDatumIDs):
             datumID = inputStream.read_unsigned_int()
             self.fixedDatumIDs.append(datumID)
+        self.variableDatumIDs = []
         for idx in range(0, numberOfVariableDatumIDs):
             datumID = inputStream.read_unsigned_int()
             self.variableDatumIDs.append(datumID)
@@ -202,6 +204,7 @@ class IFFData:
         # The record length includes the length of record type field (32 bits)
         # and record length field (16 bits) so we subtract 6 bytes total for
         # those
+        self.iffData = []
         for idx in range(0, self.recordLength - 6):
             val = inputStream.read_unsigned_byte()
             self.iffData.append(val)
@@ -745,6 +748,7 @@ class IFFDataSpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfIFFDataRecords = inputStream.read_unsigned_short()
+        self.iffDataRecords = []
         for idx in range(0, numberOfIFFDataRecords):
             element = IFFData()
             element.parse(inputStream)
@@ -869,6 +873,7 @@ class RecordQuerySpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecords = inputStream.read_unsigned_int()
+        self.recordIDs = []
         for idx in range(0, numberOfRecords):
             val = inputStream.read_unsigned_int()
             self.recordIDs.append(val)
@@ -1636,11 +1641,13 @@ class DatumSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfFixedDatumRecords = inputStream.read_unsigned_int()
         numberOfVariableDatumRecords = inputStream.read_unsigned_int()
+        self.fixedDatumRecords = []
         for idx in range(0, numberOfFixedDatumRecords):
             element = FixedDatum()
             element.parse(inputStream)
             self.fixedDatumRecords.append(element)
 
+        self.variableDatumRecords = []
         for idx in range(0, numberOfVariableDatumRecords):
             element = VariableDatum()
             element.parse(inputStream)
@@ -2159,6 +2166,7 @@ class GridAxisDescriptorVariable:
         self.initialIndex = inputStream.read_unsigned_short()
         self.coordinateScaleXi = inputStream.read_double()
         self.coordinateOffsetXi = inputStream.read_double()
+        self.xiValues = []
         for idx in range(0, self.numberOfPointsOnXiAxis):
             self.xiValues.append(inputStream.read_unsigned_short())
 
@@ -2220,6 +2228,7 @@ class SilentEntitySystem:
         self.numberOfEntities = inputStream.read_unsigned_short()
         numberOfAppearanceRecords = inputStream.read_unsigned_short()
         self.entityType.parse(inputStream)
+        self.appearanceRecordList = []
         for idx in range(0, numberOfAppearanceRecords):
             self.appearanceRecordList.append(inputStream.read_unsigned_int())
 
@@ -2613,6 +2622,7 @@ class StandardVariableSpecification:
         """Parse a message. This may recursively call embedded objects."""
         numberOfStandardVariableRecords = inputStream.read_unsigned_short(
         )
+        self.standardVariables = []
         for idx in range(0, numberOfStandardVariableRecords):
             self.standardVariables.append(parseStandardVariableRecord(
                 inputStream,
@@ -3289,6 +3299,7 @@ class RecordSpecification:
     def parse(self, inputStream):
         """Parse a message. This may recursively call embedded objects."""
         numberOfRecordSets = inputStream.read_unsigned_int()
+        self.recordSets = []
         for idx in range(0, numberOfRecordSets):
             element = RecordSpecificationElement()
             element.parse(inputStream)
@@ -3335,6 +3346,7 @@ class VariableDatum:
         """Parse a message. This may recursively call embedded objects."""
         self.variableDatumID = inputStream.read_unsigned_int()
         self.variableDatumLength = inputStream.read_unsigned_int()
+        self.variableData = []
         for x in range((self.variableDatumLength + 7) // 8):  # length is in bits
             self.variableData.append(inputStream.read_unsigned_byte())
 
@@ -3819,6 +3831,7 @@ class EntityStateUpdatePdu(EntityInformationFamilyPdu):
         self.entityLocation.parse(inputStream)
         self.entityOrientation.parse(inputStream)
         self.entityAppearance = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -3871,6 +3884,7 @@ class ServiceRequestPdu(LogisticsFamilyPdu):
         self.serviceTypeRequested = inputStream.read_unsigned_byte()
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.serviceRequestPadding = inputStream.read_short()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -4174,6 +4188,7 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
         self.objectType.parse(inputStream)
+        self.linearSegmentParameters = []
         for idx in range(0, numberOfSegments):
             element = LinearSegmentParameter()
             element.parse(inputStream)
@@ -4279,6 +4294,7 @@ class IntercomSignalPdu(RadioCommunicationsFamilyPdu):
         self.samples = inputStream.read_unsigned_short()
         # sampleSize = dataLength / samples
         # FIXME: Read sampleSize number of bits from inputStream for data
+        self.data = []
         for idx in range(0, dataLength // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
@@ -4353,6 +4369,7 @@ class ResupplyReceivedPdu(LogisticsFamilyPdu):
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_short()
         self.padding2 = inputStream.read_byte()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -4885,6 +4902,7 @@ class EntityStatePdu(EntityInformationFamilyPdu):
         self.deadReckoningParameters.parse(inputStream)
         self.marking.parse(inputStream)
         self.capabilities = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -5114,6 +5132,7 @@ class TransmitterPdu(RadioCommunicationsFamilyPdu):
         else:
             self.antennaPattern = None
         
+        self.variableTransmitterParameters = []
         for _ in range(0, variableTransmitterParameterCount):
             vtp = parseStandardVariableRecord(
                 inputStream,
@@ -5169,6 +5188,7 @@ class ElectromagneticEmissionsPdu(DistributedEmissionsFamilyPdu):
         numberOfSystems = inputStream.read_unsigned_byte()
         self.paddingForEmissionsPdu = inputStream.read_unsigned_short()
 
+        self.systems = []
         for idx in range(0, numberOfSystems):
             element = EmissionSystemRecord()
             element.parse(inputStream)
@@ -5231,6 +5251,7 @@ class EmissionSystemBeamRecord:
         self.beamStatus.parse(inputStream)
         self.jammingModeSequence = inputStream.read_unsigned_int()
 
+        self.trackJamRecords = []
         for idx in range(0, numberOfTargetsInTrackJam):
             element = TrackJamData()
             element.parse(inputStream)
@@ -5276,6 +5297,7 @@ class EmissionSystemRecord:
         inputStream.read_unsigned_short()  # 16 bit padding
         self.emitterSystem.parse(inputStream)
         self.location.parse(inputStream)
+        self.beamRecords = []
         for idx in range(0, numberOfBeams):
             element = EmissionSystemBeamRecord()
             element.parse(inputStream)
@@ -5327,6 +5349,7 @@ class ResupplyOfferPdu(LogisticsFamilyPdu):
         numberOfSupplyTypes = inputStream.read_unsigned_byte()
         self.padding1 = inputStream.read_byte()
         self.padding2 = inputStream.read_short()
+        self.supplies = []
         for idx in range(0, numberOfSupplyTypes):
             element = SupplyQuantity()
             element.parse(inputStream)
@@ -5892,6 +5915,7 @@ class FastEntityStatePdu(EntityInformationFamilyPdu):
             self.marking[idx] = val
 
         self.capabilities = inputStream.read_unsigned_int()
+        self.variableParameters = []
         for idx in range(0, self.numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -6049,6 +6073,7 @@ class ArealObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         numberOfPoints = inputStream.read_unsigned_short()
         self.requesterID.parse(inputStream)
         self.receivingID.parse(inputStream)
+        self.objectLocation = []
         for idx in range(0, numberOfPoints):
             element = WorldCoordinates()
             element.parse(inputStream)
@@ -6191,11 +6216,13 @@ class MinefieldStatePdu(MinefieldFamilyPdu):
         self.minefieldOrientation.parse(inputStream)
         self.appearance = inputStream.read_unsigned_short()
         self.protocolMode = inputStream.read_unsigned_short()
+        self.perimeterPoints = []
         for idx in range(0, numberOfPerimeterPoints):
             element = Vector2Float()
             element.parse(inputStream)
             self.perimeterPoints.append(element)
 
+        self.mineTypes = []
         for idx in range(0, numberOfMineTypes):
             element = EntityType()
             element.parse(inputStream)
@@ -6425,6 +6452,7 @@ class DirectedEnergyFirePdu(WarfareFamilyPdu):
         self.padding3 = inputStream.read_uint32()
         self.padding4 = inputStream.read_uint16()
         numberOfDERecords = inputStream.read_uint16()
+        self.dERecords = []
         for _ in range(0, numberOfDERecords):
             vtp = parseStandardVariableRecord(
                 inputStream,
@@ -6499,6 +6527,7 @@ class DetonationPdu(WarfareFamilyPdu):
         self.detonationResult = inputStream.read_unsigned_byte()
         numberOfVariableParameters = inputStream.read_unsigned_byte()
         self.pad = inputStream.read_unsigned_short()
+        self.variableParameters = []
         for idx in range(0, numberOfVariableParameters):
             element = VariableParameter()
             element.parse(inputStream)
@@ -6605,6 +6634,7 @@ class RecordQueryReliablePdu(SimulationManagementWithReliabilityFamilyPdu):
         self.eventType = inputStream.read_unsigned_short()
         self.time = inputStream.read_unsigned_int()
         numberOfRecords = inputStream.read_unsigned_int()
+        self.recordIDs = []
         for idx in range(0, numberOfRecords):
             element = inputStream.read_unsigned_int()
             self.recordIDs.append(element)
@@ -6698,6 +6728,7 @@ class EntityDamageStatusPdu(WarfareFamilyPdu):
         self.padding1 = inputStream.read_uint16()
         self.padding2 = inputStream.read_uint16()
         damageDescriptionCount = inputStream.read_uint16()
+        self.damageDescriptions = []
         for _ in range(0, damageDescriptionCount):
             record = parseStandardVariableRecord(
                 inputStream,
@@ -6895,14 +6926,17 @@ class UaPdu(DistributedEmissionsFamilyPdu):
         numberOfShafts = inputStream.read_unsigned_byte()
         numberOfAPAs = inputStream.read_unsigned_byte()
         numberOfUAEmitterSystems = inputStream.read_unsigned_byte()
+        self.shaftRPMs = []
         for idx in range(0, numberOfShafts):
             element = null()
             element.parse(inputStream)
             self.shaftRPMs.append(element)
+        self.apaData = []
         for idx in range(0, numberOfAPAs):
             element = null()
             element.parse(inputStream)
             self.apaData.append(element)
+        self.emitterSystems = []
         for idx in range(0, numberOfUAEmitterSystems):
             element = null()
             element.parse(inputStream)
@@ -7056,6 +7090,7 @@ class SignalPdu(RadioCommunicationsFamilyPdu):
         self.sampleRate = inputStream.read_unsigned_int()
         dataLength = inputStream.read_unsigned_short()
         self.samples = inputStream.read_unsigned_short()
+        self.data = []
         for idx in range(0, dataLength // 8):
             element = inputStream.read_unsigned_byte()
             self.data.append(element)
@@ -7154,11 +7189,13 @@ class SeesPdu(DistributedEmissionsFamilyPdu):
         )
         numberOfPropulsionSystems = inputStream.read_unsigned_short()
         numberOfVectoringNozzleSystems = inputStream.read_unsigned_short()
+        self.propulsionSystemData = []
         for idx in range(0, numberOfPropulsionSystems):
             element = PropulsionSystemData()
             element.parse(inputStream)
             self.propulsionSystemData.append(element)
 
+        self.vectoringSystemData = []
         for idx in range(0, numberOfVectoringNozzleSystems):
             element = VectoringNozzleSystem()
             element.parse(inputStream)
@@ -7339,6 +7376,7 @@ class MinefieldResponseNackPdu(MinefieldFamilyPdu):
         self.requestingEntityID.parse(inputStream)
         self.requestID = inputStream.read_unsigned_byte()
         numberOfMissingPdus = inputStream.read_unsigned_byte()
+        self.missingPduSequenceNumbers = []
         for idx in range(0, numberOfMissingPdus):
             element = inputStream.read_unsigned_byte()
             self.missingPduSequenceNumbers.append(element)
@@ -7562,25 +7600,30 @@ class AggregateStatePdu(EntityManagementFamilyPdu):
         numberOfEntityIDs = inputStream.read_unsigned_short()
         numberOfSilentAggregateSystems = inputStream.read_unsigned_short()
         numberOfSilentEntitySystems = inputStream.read_unsigned_short()
+        self.aggregateIDs = []
         for idx in range(0, numberOfAggregateIDs):
             element = AggregateIdentifier()
             element.parse(inputStream)
             self.aggregateIDs.append(element)
+        self.entityIDs = []
         for idx in range(0, numberOfEntityIDs):
             element = EntityIdentifier()
             element.parse(inputStream)
             self.entityIDs.append(element)
         if (numberOfAggregateIDs + numberOfEntityIDs) % 2 != 0:
             inputStream.read_unsigned_short()  # padding to 32-bit boundary
+        self.silentAggregateSystems = []
         for idx in range(0, numberOfSilentAggregateSystems):
             element = SilentAggregateSystem()
             element.parse(inputStream)
             self.silentAggregateSystems.append(element)
+        self.silentEntitySystems = []
         for idx in range(0, numberOfSilentEntitySystems):
             element = SilentEntitySystem()
             element.parse(inputStream)
             self.silentEntitySystems.append(element)
         numberOfVariableDatumRecords = inputStream.read_unsigned_int()
+        self.variableDatumRecords = []
         for idx in range(0, numberOfVariableDatumRecords):
             element = VariableDatum()
             element.parse(inputStream)
-- 
2.43.0


From 3a9e83810aae3ebd0d356f58be864ce18d3e0b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 51/54] fix: DE Area Aimpoint parse replaces its record lists

---
 opendis/record/warfare/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opendis/record/warfare/__init__.py b/opendis/record/warfare/__init__.py
index 5f8916e..5fa10ff 100644
--- a/opendis/record/warfare/__init__.py
+++ b/opendis/record/warfare/__init__.py
@@ -164,10 +164,12 @@ class DirectedEnergyAreaAimpoint(DamageDescriptionRecord):
         self.padding = inputStream.read_uint16()
         beamAntennaPatternCount = inputStream.read_uint16()
         directedEnergyTargetEnergyDepositionCount = inputStream.read_uint16()
+        self.beamAntennaPatterns = []
         for _ in range(0, beamAntennaPatternCount):
             record = BeamAntennaPattern()
             record.parse(inputStream)
             self.beamAntennaPatterns.append(record)
+        self.directedEnergyTargetEnergyDepositions = []
         for _ in range(0, directedEnergyTargetEnergyDepositionCount):
             record = DirectedEnergyTargetEnergyDeposition()
             record.parse(inputStream)
-- 
2.43.0


From 2a9397d89d7b513081fe9152a71aa36681719948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:01 +0000
Subject: [PATCH 52/54] fix: ecef2lla converges everywhere and keeps the
 altitude precise near the poles

---
 opendis/RangeCoordinates.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 4c9da54..8f6cf84 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -128,8 +128,6 @@ class GPS:
         lon = atan2(y, x)
 
         # Initialize the variables to calculate lat and alt
-        alt = 0
-        N = self.wgs84.a
         p = sqrt(x**2 + y**2)
         lat = 0
         previousLat = 90
@@ -137,10 +135,10 @@ class GPS:
         # Special case for poles (note: any longitude value is valid here)
         if x == 0 and y == 0:   
             if z > 0:
-                return (90.00, 69.00, round(z - self.wgs84.b, 2))
+                return (90.00, 69.00, z - self.wgs84.b)
 
             elif z < 0:
-                return (-90.00, 69.00, round(-z - self.wgs84.b, 2))
+                return (-90.00, 69.00, -z - self.wgs84.b)
 
             else:
                 raise Exception("The Exact Center of the Earth has no lat/lon")
@@ -148,10 +146,13 @@ class GPS:
         # Iterate until tolerance is reached
         while abs(lat - previousLat) >= tolerance:
             previousLat = lat
-            sinLat = z / (N * (1 - self.wgs84.e**2) + alt)
-            lat = atan((z + self.wgs84.e**2 * N * sinLat) / p)
+            sinLat = sin(lat)
             N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sinLat)**2)
-            alt = p / cos(lat) - N
+            lat = atan2(z + self.wgs84.e**2 * N * sinLat, p)
+
+        # p / cos(lat) - N would lose all precision near the poles
+        N = self.wgs84.a / sqrt(1 - (self.wgs84.e * sin(lat))**2)
+        alt = p * cos(lat) + z * sin(lat) - self.wgs84.a**2 / N
 
         # Return the lla coordinates
         return (rad2deg(lat), rad2deg(lon), alt)
-- 
2.43.0


From a1fd48821994ca6e0095e53b917e0ae82ccb10d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 53/54] fix: UTM zone at the date line and latitude band X up
 to 84 degrees north

---
 opendis/RangeCoordinates.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opendis/RangeCoordinates.py b/opendis/RangeCoordinates.py
index 8f6cf84..48d20c7 100644
--- a/opendis/RangeCoordinates.py
+++ b/opendis/RangeCoordinates.py
@@ -343,13 +343,16 @@ class GPS:
         lat = lla[0]
         lon = lla[1]
         alt = lla[2]
+        #The date line belongs to zone 1, not to a zone 61
+        if lon >= 180.:
+            lon -= 360.
         #Determine the zone number
         zoneNumber = int((lon+180.)/6) + 1
         #Special zone for Norway
         if (56. <= lat < 64.) and (3. <= lon < 12.):
             zoneNumber = 32
         #Special zones for Svalbard
-        if 72. <= lat < 84.:
+        if 72. <= lat <= 84.:
             if 0. <= lon < 9.: zoneNumber = 31
             elif 9. <= lon < 21.: zoneNumber = 33
             elif 21. <= lon < 33.: zoneNumber = 35
@@ -561,7 +564,7 @@ class GPS:
         elif 48 <= lat < 56: return 'U'
         elif 56 <= lat < 64: return 'V'
         elif 64 <= lat < 72: return 'W'
-        elif 72 <= lat < 80: return 'X'
+        elif 72 <= lat <= 84: return 'X'
         else: return 'Z'
 
 
-- 
2.43.0


From 6b15ae611649039d90a5cc314c1392e1f8879332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:19 +0000
Subject: [PATCH 54/54] fix: LinearObjectStatePdu can be constructed

---
 opendis/dis7.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/opendis/dis7.py b/opendis/dis7.py
index 8f298fa..e7c61ba 100644
--- a/opendis/dis7.py
+++ b/opendis/dis7.py
@@ -4152,8 +4152,6 @@ class LinearObjectStatePdu(SyntheticEnvironmentFamilyPdu):
         self.updateNumber = updateNumber
         """unique update number of each state transition of an object"""
         self.forceID = forceID
-        self.numberOfSegments = numberOfSegments
-        """number of linear segment parameters"""
         self.requesterID = requesterID or SimulationAddress()
         self.receivingID = receivingID or SimulationAddress()
         self.objectType = objectType or ObjectType()
-- 
2.43.0

