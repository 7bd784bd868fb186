From 69c88c4492acf4dd417be969029ae7456706375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:46 +0000
Subject: [PATCH 01/91] fix: encode and decode nullable bytes as the protocol
 defines them

---
 primitive_type_encode.go  | 2 +-
 primitive_types_decode.go | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/primitive_type_encode.go b/primitive_type_encode.go
index 4361c3b..d70709b 100644
--- a/primitive_type_encode.go
+++ b/primitive_type_encode.go
@@ -116,7 +116,7 @@ func encodeNullableBytes(s []byte) []byte {
 		return binary.BigEndian.AppendUint32(nil, 0xFFFFFFFF)
 	}
 	payload := make([]byte, len(s)+4)
-	binary.BigEndian.AppendUint32(payload, uint32(len(s)))
+	binary.BigEndian.PutUint32(payload, uint32(len(s)))
 	offset := copy(payload[4:], s)
 	return payload[:4+offset]
 }
diff --git a/primitive_types_decode.go b/primitive_types_decode.go
index b712328..bf01742 100644
--- a/primitive_types_decode.go
+++ b/primitive_types_decode.go
@@ -81,11 +81,10 @@ func nullableBytes(payload []byte) (r []byte, offset int) {
 // Then N bytes follow. A null object is represented with a length of 0.
 func compactNullableBytes(payload []byte) (r []byte, offset int) {
 	length, o := binary.Uvarint(payload)
-	length--
-
 	if length == 0 {
 		return nil, o
 	}
+	length--
 	r = payload[o : o+int(length)]
 	return r, o + int(length)
 }
-- 
2.43.0


From 1cbc4e0be32260ed10a34bfe46a4a195c5ff651e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:07 +0000
Subject: [PATCH 02/91] fix: derive the request header version from the current
 api version

---
 request.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/request.go b/request.go
index 7a94b44..5d15274 100644
--- a/request.go
+++ b/request.go
@@ -60,7 +60,6 @@ var availableVersions map[uint16][]uint16 = map[uint16][]uint16{
 
 // RequestHeader is the request header, which is used in all requests. It contains apiKey, apiVersion, correlationID, clientID
 type RequestHeader struct {
-	hv            *uint16 // header version
 	APIKey        uint16
 	APIVersion    uint16
 	CorrelationID uint32
@@ -216,13 +215,6 @@ func (h *RequestHeader) IsFlexible() bool {
 // The new serialization types start with compact.
 // For example COMPACT_STRING is a more efficient form of STRING.
 func (h *RequestHeader) headerVersion() (r uint16) {
-	if h.hv != nil {
-		return *h.hv
-	}
-	defer func() {
-		h.hv = &r
-	}()
-
 	_version := h.APIVersion
 	switch h.APIKey {
 	case 0: // Produce
-- 
2.43.0


From 7cee7b76ea0e847674bf63ffbcc520c9c1b3c27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:12 +0000
Subject: [PATCH 03/91] fix: send transactional_id in produce requests only
 from version 3 on

---
 produce_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/produce_request.go b/produce_request.go
index 8b8f9bb..65aa5c6 100644
--- a/produce_request.go
+++ b/produce_request.go
@@ -119,7 +119,7 @@ func (r *ProduceRequest) Encode(version uint16) (payload []byte) {
 		return nil
 	}
 
-	if r.APIVersion >= tags["StatesFilter"] {
+	if r.APIVersion >= tags["transactionalID"] {
 		if isFlexible {
 			_, err = writeCompactNullableString(buf, r.transactionalID)
 		} else {
@@ -169,7 +169,7 @@ func (r *ProduceRequest) Decode(data []byte, version uint16) error {
 	isFlexible := r.IsFlexible()
 
 	// Decode transactionalID if applicable
-	if r.APIVersion >= r.tags()["StatesFilter"] {
+	if r.APIVersion >= r.tags()["transactionalID"] {
 		if isFlexible {
 			r.transactionalID, o = compactNullableString(data[offset:])
 		} else {
-- 
2.43.0


From 8f0bd10b4126ec30aeccdc91a4a8445ae2524ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:17 +0000
Subject: [PATCH 04/91] fix: size the fetch request buffer by the number of
 partitions

---
 fetch_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fetch_request.go b/fetch_request.go
index 3855996..a3ee3e8 100644
--- a/fetch_request.go
+++ b/fetch_request.go
@@ -67,8 +67,8 @@ func (fetchRequest *FetchRequest) addPartition(topic string, partitionID int32,
 func (fetchRequest *FetchRequest) length(version uint16) int {
 	length := 4 + fetchRequest.RequestHeader.length()
 	length += 25 + 4 + 4
-	for topicname := range fetchRequest.Topics {
-		length += 2 + len(topicname) + 28
+	for topicname, partitionBlocks := range fetchRequest.Topics {
+		length += 2 + len(topicname) + 4 + len(partitionBlocks)*28
 	}
 	for topicname, partitionIDs := range fetchRequest.ForgottenTopicsDatas {
 		length += 2 + len(topicname) + 4 + len(partitionIDs)*4
-- 
2.43.0


From e154571a60eed9b59c2b411fb6769593bf2bf0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:33 +0000
Subject: [PATCH 05/91] fix: send null assignments as null in CreatePartitions
 version 0

---
 create_partitions_request.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/create_partitions_request.go b/create_partitions_request.go
index 2a522c0..56e1a2e 100644
--- a/create_partitions_request.go
+++ b/create_partitions_request.go
@@ -84,7 +84,11 @@ func (r *createPartitionsRequestTopicBlock) encode(payload []byte, version uint1
 			offset += binary.PutUvarint(payload[offset:], 1+uint64(len(r.Assignments)))
 		}
 	case 0:
-		binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		if r.Assignments == nil {
+			binary.BigEndian.PutUint32(payload[offset:], 0xffffffff)
+		} else {
+			binary.BigEndian.PutUint32(payload[offset:], uint32(len(r.Assignments)))
+		}
 		offset += 4
 	}
 	for _, assignment := range r.Assignments {
-- 
2.43.0


From e148435d857b1e53b1cb977d681128f9eca9c759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:38 +0000
Subject: [PATCH 06/91] fix: send nil replicas as null in
 AlterPartitionReassignments

---
 alter_partition_reassignments_request.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/alter_partition_reassignments_request.go b/alter_partition_reassignments_request.go
index ba87d0f..2bdc631 100644
--- a/alter_partition_reassignments_request.go
+++ b/alter_partition_reassignments_request.go
@@ -134,7 +134,12 @@ func (r *AlterPartitionReassignmentsPartition) encode(payload []byte) (offset in
 	binary.BigEndian.PutUint32(payload[offset:], uint32(r.PartitionID))
 	offset += 4
 
-	offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	if r.Replicas == nil {
+		// null cancels the pending reassignment of the partition
+		offset += copy(payload[offset:], encodeCompactArrayLength(-1))
+	} else {
+		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Replicas)))
+	}
 
 	for _, replica := range r.Replicas {
 		binary.BigEndian.PutUint32(payload[offset:], uint32(replica))
-- 
2.43.0


From 088a38ec1ef0a9c0802be81ca129198e9e0e7a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:43 +0000
Subject: [PATCH 07/91] fix: accept replica assignments in any order and
 overwrite existing ones

---
 create_topics_request.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/create_topics_request.go b/create_topics_request.go
index ee854e9..8627fbd 100644
--- a/create_topics_request.go
+++ b/create_topics_request.go
@@ -165,7 +165,6 @@ func (r *CreateTopicsRequest) AddTopic(topic string, partitions int32, replicati
 
 var (
 	errorTopicNotFound = errors.New("topic not found in the CreateTopicRequests")
-	errorPidOutOfRange = errors.New("partitionID in replica-assignment is out of range")
 )
 
 // AddReplicaAssignment add replicas of certain topic & pid to CreateTopicRequests. It returns errorTopicNotFound if topic has not beed added to the request;  it overwrite replicas if pid exists
@@ -185,10 +184,6 @@ func (r *CreateTopicsRequest) AddReplicaAssignment(topic string, pid int32, repl
 
 	found = false
 	for _, ra := range rr.ReplicaAssignments {
-		if ra.Partition >= pid {
-			return errorPidOutOfRange
-		}
-
 		if ra.Partition == pid {
 			found = true
 			ra.Replicas = replicas
-- 
2.43.0


From a9e03ec135015c4d00e1f07cce7645b1a5143aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:48 +0000
Subject: [PATCH 08/91] fix: write tagged fields only in flexible versions of
 DescribeAcls and CreateAcls requests

---
 create_acls_request.go   | 20 ++++++++++++++------
 describe_acls_request.go |  4 +++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/create_acls_request.go b/create_acls_request.go
index 180bef2..621b84c 100644
--- a/create_acls_request.go
+++ b/create_acls_request.go
@@ -60,7 +60,9 @@ func (a *AclCreation) encodeTo(payload []byte, version uint16, headerVersion uin
 	offset++
 	payload[offset] = uint8(a.PermissionType)
 	offset++
-	offset += copy(payload[offset:], a.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], a.TaggedFields.Encode())
+	}
 
 	return
 }
@@ -103,7 +105,9 @@ func (r *CreateAclsRequest) Encode(version uint16) (payload []byte) {
 	}
 
 	// Write the tag buffer
-	offset += copy(payload[offset:], r.TaggedFields.Encode())
+	if headerVersion >= 2 {
+		offset += copy(payload[offset:], r.TaggedFields.Encode())
+	}
 
 	return payload
 }
@@ -173,15 +177,19 @@ func DecodeCreateAclsRequest(payload []byte) (r CreateAclsRequest, err error) {
 		creation.PermissionType = AclsPermissionType(payload[offset])
 		offset++
 
-		creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if headerVersion >= 2 {
+			creation.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 
 		r.Creations[i] = *creation
 	}
 
 	// Decode TaggedFields
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if headerVersion >= 2 {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
diff --git a/describe_acls_request.go b/describe_acls_request.go
index 2fa0509..b77b6c5 100644
--- a/describe_acls_request.go
+++ b/describe_acls_request.go
@@ -58,7 +58,9 @@ func (r *DescribeAclsRequest) Encode(version uint16) (rst []byte) {
 
 	binary.Write(buf, binary.BigEndian, r.PermissionType)
 
-	buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	if version >= 2 {
+		buf.Write(r.DescribeAclsRequestBody.TaggedFields.Encode())
+	}
 
 	return buf.Bytes()
 }
-- 
2.43.0


From 0720a2853215c7297f8bf9de14d463c954f376b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:09 +0000
Subject: [PATCH 09/91] fix: read the two-byte error code of SaslHandshake
 responses

---
 sasl_handshake_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sasl_handshake_response.go b/sasl_handshake_response.go
index ad222f8..97a3f2d 100644
--- a/sasl_handshake_response.go
+++ b/sasl_handshake_response.go
@@ -32,7 +32,7 @@ func NewSaslHandshakeResponse(payload []byte) (r SaslHandshakeResponse, err erro
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	r.ErrorCode = int16(uint16(binary.BigEndian.Uint32(payload[offset:])))
+	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 	if r.ErrorCode != 0 {
 		err = KafkaError(r.ErrorCode)
-- 
2.43.0


From 5bbc1368020096988319e7d9ab5cbcd644aaad07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:14 +0000
Subject: [PATCH 10/91] fix: ListOffsets responses carry a throttle time only
 from version 2 on

---
 offset_response.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/offset_response.go b/offset_response.go
index bf92db7..0c5bc39 100644
--- a/offset_response.go
+++ b/offset_response.go
@@ -52,8 +52,9 @@ func NewOffsetsResponse(payload []byte, version uint16) (r OffsetsResponse, err
 	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
 
-	if version > 0 {
+	if version >= 2 {
 		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
 	}
 
 	topicLenght := int(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From e4b72a57f719021c4b8759284a637e9b1a8d80e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:20 +0000
Subject: [PATCH 11/91] fix: decode the cluster id of metadata responses

---
 metadata_response.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metadata_response.go b/metadata_response.go
index 46b7e8a..f20655a 100644
--- a/metadata_response.go
+++ b/metadata_response.go
@@ -176,9 +176,11 @@ func NewMetadataResponse(payload []byte, version uint16) (r MetadataResponse, er
 	}
 
 	if version >= 4 {
-		l := int(binary.BigEndian.Uint16(payload[offset:]))
-		r.ClusterID = string(payload[offset : offset+l])
-		offset += 2 + l
+		clusterID, o := nullableString(payload[offset:])
+		offset += o
+		if clusterID != nil {
+			r.ClusterID = *clusterID
+		}
 	}
 	// ControllerID
 	r.ControllerID = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From fca64fcd7bebdbb58cfae39f21b2e1ff4fade4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:26 +0000
Subject: [PATCH 12/91] fix: decode produce responses with every field of their
 version

---
 produce_response.go | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/produce_response.go b/produce_response.go
index 4d79488..a028df0 100644
--- a/produce_response.go
+++ b/produce_response.go
@@ -17,7 +17,7 @@ type produceResponseP struct {
 	ErrorCode   int16
 	BaseOffset  int64
 
-	LogAppendTimeMs int64 `healer:"minVersion:3"`
+	LogAppendTimeMs int64 `healer:"minVersion:2"`
 	LogStartOffset  int64 `healer:"minVersion:5"`
 
 	RecordErrors []produceResponseRecordErrors `healer:"minVersion:8"`
@@ -50,7 +50,7 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 	offset += 8
 
 	tags := p.tags()
-	if version >= tags["GroupState"] {
+	if version >= tags["LogAppendTimeMs"] {
 		p.LogAppendTimeMs = int64(binary.BigEndian.Uint64(payload[offset:]))
 		offset += 8
 	}
@@ -84,8 +84,10 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 				offset += o
 			}
 
-			r.TaggedField, o = DecodeTaggedFields(payload[offset:])
-			offset += o
+			if isFlexible {
+				r.TaggedField, o = DecodeTaggedFields(payload[offset:])
+				offset += o
+			}
 		}
 	}
 
@@ -98,6 +100,11 @@ func (p *produceResponseP) decode(payload []byte, version uint16, isFlexible boo
 		offset += o
 	}
 
+	if isFlexible {
+		p.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
+
 	return
 }
 
@@ -126,11 +133,13 @@ func (t *produceResponseT) decode(payload []byte, version uint16, isFlexible boo
 	}
 	for j := range t.Partitions {
 		p := &t.Partitions[j]
-		p.decode(payload[offset:], version, isFlexible)
+		offset += p.decode(payload[offset:], version, isFlexible)
 	}
 
-	t.TaggedField, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if isFlexible {
+		t.TaggedField, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return
 }
@@ -139,7 +148,7 @@ type ProduceResponse struct {
 	ResponseHeader
 	ProduceResponses []produceResponseT
 
-	ThrottleTimeMs int32        `healer:"minVersion:3"`
+	ThrottleTimeMs int32        `healer:"minVersion:1"`
 	TaggedField    TaggedFields `json:"tagged_fields"`
 }
 
@@ -165,7 +174,7 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 	}
 	offset += 4
 
-	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_DeleteAcls, version)
+	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_ProduceRequest, version)
 	offset += o
 
 	isFlexible := r.ResponseHeader.IsFlexible()
@@ -184,5 +193,14 @@ func NewProduceResponse(payload []byte, version uint16) (r ProduceResponse, err
 		offset += r.ProduceResponses[i].decode(payload[offset:], version, isFlexible)
 	}
 
+	if version >= 1 {
+		r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+		offset += 4
+	}
+
+	if isFlexible {
+		r.TaggedField, _ = DecodeTaggedFields(payload[offset:])
+	}
+
 	return r, err
 }
-- 
2.43.0


From 28e38895d54138d4621ec8a229f317c32a5ae362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:10 +0000
Subject: [PATCH 13/91] fix: keep member metadata and group errors of
 DescribeGroups responses

---
 describe_groups_response.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/describe_groups_response.go b/describe_groups_response.go
index 3398e07..7da8c90 100644
--- a/describe_groups_response.go
+++ b/describe_groups_response.go
@@ -109,6 +109,7 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 
 			l = int(binary.BigEndian.Uint32(payload[offset:]))
 			offset += 4
+			group.Members[i].MemberMetadata = make([]byte, l)
 			copy(group.Members[i].MemberMetadata, payload[offset:offset+l])
 			offset += l
 
@@ -116,7 +117,13 @@ func NewDescribeGroupsResponse(payload []byte) (r DescribeGroupsResponse, err er
 			offset += 4
 			group.Members[i].RawMemberAssignment = make([]byte, l)
 			copy(group.Members[i].RawMemberAssignment, payload[offset:offset+l])
-			group.Members[i].MemberAssignment, err = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+			if l > 0 { // members of a rebalancing group have no assignment yet
+				var assignmentErr error
+				group.Members[i].MemberAssignment, assignmentErr = NewMemberAssignment(group.Members[i].RawMemberAssignment)
+				if err == nil {
+					err = assignmentErr
+				}
+			}
 			offset += l
 		}
 
-- 
2.43.0


From 0d779c60b41a9d1244a78fd1fc096a877a5b5d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:16 +0000
Subject: [PATCH 14/91] fix: accept null metadata in OffsetFetch responses

---
 offset_fetch_response.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/offset_fetch_response.go b/offset_fetch_response.go
index ba09b09..a8be5f3 100644
--- a/offset_fetch_response.go
+++ b/offset_fetch_response.go
@@ -72,10 +72,11 @@ func NewOffsetFetchResponse(payload []byte) (r OffsetFetchResponse, err error) {
 			offset += 4
 			p.Offset = int64(binary.BigEndian.Uint64(payload[offset:]))
 			offset += 8
-			l = int(binary.BigEndian.Uint16(payload[offset:]))
-			offset += 2
-			p.Metadata = string(payload[offset : offset+l])
-			offset += l
+			metadata, o := nullableString(payload[offset:])
+			offset += o
+			if metadata != nil {
+				p.Metadata = *metadata
+			}
 			p.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 			offset += 2
 
-- 
2.43.0


From 3ed0e09923fc4c895ee41b77653f9278ea53b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:08 +0000
Subject: [PATCH 15/91] fix: read the error message of successful
 DescribeConfigs resources

---
 describe_configs_response.go | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/describe_configs_response.go b/describe_configs_response.go
index dbd4db5..b6a466b 100644
--- a/describe_configs_response.go
+++ b/describe_configs_response.go
@@ -30,20 +30,14 @@ type describeConfigsResponseResource struct {
 }
 
 func decodeToDescribeConfigsResponseResource(payload []byte) (r describeConfigsResponseResource, offset int) {
-	var l int
-
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	if r.ErrorCode != 0 {
-		l = int(int16(binary.BigEndian.Uint16(payload[offset:])))
-		offset += 2
-		if l > 0 {
-			r.ErrorMessage = string(payload[offset : offset+l])
-			offset += l
-		}
-	} else {
-		offset += 2
+	l := int(int16(binary.BigEndian.Uint16(payload[offset:])))
+	offset += 2
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
 	}
 
 	r.ResourceType = uint8(payload[offset])
-- 
2.43.0


From fde2409c4152556e71dc8c52baa43daab52c0e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:14 +0000
Subject: [PATCH 16/91] fix: decode every resource of (incremental)
 AlterConfigs responses

---
 alter_config_response.go             | 10 ++++++----
 incremental_alter_config_response.go |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/alter_config_response.go b/alter_config_response.go
index 69d3167..b5464f5 100644
--- a/alter_config_response.go
+++ b/alter_config_response.go
@@ -32,10 +32,12 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	l := int(binary.BigEndian.Uint16(payload[offset:]))
+	l := int(int16(binary.BigEndian.Uint16(payload[offset:])))
 	offset += 2
-	r.ErrorMessage = string(payload[offset : offset+l])
-	offset += l
+	if l > 0 {
+		r.ErrorMessage = string(payload[offset : offset+l])
+		offset += l
+	}
 
 	r.ResourceType = payload[offset]
 	offset++
@@ -44,7 +46,7 @@ func (r *AlterConfigsResponseResource) decode(payload []byte) (resourceLength in
 	offset += 2
 	r.ResourceName = string(payload[offset : offset+l])
 	offset += l
-	return
+	return offset
 }
 
 func NewAlterConfigsResponse(payload []byte) (r AlterConfigsResponse, err error) {
diff --git a/incremental_alter_config_response.go b/incremental_alter_config_response.go
index c78f3c0..2defbb8 100644
--- a/incremental_alter_config_response.go
+++ b/incremental_alter_config_response.go
@@ -50,7 +50,7 @@ func decodeToIncrementalAlterConfigsResponseResource(payload []byte, version uin
 		r.ResourceName = string(payload[offset : offset+int(l)])
 		offset += int(l)
 	}
-	return
+	return r, offset
 }
 
 // NewIncrementalAlterConfigsResponse create a new IncrementalAlterConfigsResponse.
-- 
2.43.0


From 61657e0135ff32c96fef9839afc358076621e347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:20 +0000
Subject: [PATCH 17/91] fix: decode tag buffers of CreatePartitions responses
 only in flexible versions

---
 create_partitions_response.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/create_partitions_response.go b/create_partitions_response.go
index 4861514..b7490fa 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -44,9 +44,9 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 
 	r.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
-	if version == 2 {
-		// TAG_BUFFER
-		offset++
+	if version >= 2 {
+		_, o := DecodeTaggedFields(payload[offset:])
+		offset += o
 	}
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
@@ -89,11 +89,11 @@ func NewCreatePartitionsResponse(payload []byte, version uint16) (r CreatePartit
 			offset += o
 			r.Results[i].ErrorMessage = msg
 		}
-		// TAG_BUFFER
-		offset++
+		if version >= 2 {
+			_, o := DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
-	// TAG_BUFFER
-	offset++
 
 	return
 }
-- 
2.43.0


From dbb7f92238e148abb82620f44d8f0fa2f3597d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:31 +0000
Subject: [PATCH 18/91] fix: read the header tag buffer of
 ListPartitionReassignments responses

---
 list_partition_reassignments_response.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/list_partition_reassignments_response.go b/list_partition_reassignments_response.go
index de1e77a..9a57d42 100644
--- a/list_partition_reassignments_response.go
+++ b/list_partition_reassignments_response.go
@@ -37,7 +37,7 @@ func decodeToListPartitionReassignmentsTopicBlock(payload []byte) (r listPartiti
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return
@@ -85,7 +85,7 @@ func decodeToListPartitionReassignmentsPartitionBlock(payload []byte) (r listPar
 			offset += 4
 		}
 	}
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 	return
 }
@@ -105,8 +105,9 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	}
 	offset += 4
 
-	r.CorrelationID = uint32(binary.BigEndian.Uint32(payload[offset:]))
-	offset += 4
+	header, o := DecodeResponseHeader(payload[offset:], API_ListPartitionReassignments, version)
+	r.CorrelationID = header.CorrelationID
+	offset += o
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
 	offset += 4
@@ -114,9 +115,6 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 	r.ErrorCode = int16(binary.BigEndian.Uint16(payload[offset:]))
 	offset += 2
 
-	offset++ // I do not know what this byte means, always 0x01 , additonal byte after ErrorMessage and before Topics
-
-	var o int
 	r.ErrorMessage, o = compactNullableString(payload[offset:])
 	offset += o
 
@@ -132,7 +130,7 @@ func NewListPartitionReassignmentsResponse(payload []byte, version uint16) (r *L
 		}
 	}
 
-	_, o = binary.Uvarint(payload[offset:]) // TAG_BUFFER
+	_, o = DecodeTaggedFields(payload[offset:])
 	offset += o
 
 	return r, err
-- 
2.43.0


From 487b99e990ff5b7979954d45d4207272092ad8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:25 +0000
Subject: [PATCH 19/91] fix: describe_acls v1 responses carry no tag buffer;
 check their size

---
 desscribe_acls_response.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/desscribe_acls_response.go b/desscribe_acls_response.go
index e8a9c3d..f313d45 100644
--- a/desscribe_acls_response.go
+++ b/desscribe_acls_response.go
@@ -3,6 +3,7 @@ package healer
 import (
 	"bytes"
 	"encoding/binary"
+	"fmt"
 )
 
 type DescribeAclsResponse struct {
@@ -42,13 +43,16 @@ func NewDescribeAclsResponse(payload []byte, version uint16) (response DescribeA
 	var o int
 	offset := 0
 
-	// Skip message size
+	responseLength := int(binary.BigEndian.Uint32(payload))
+	if responseLength+4 != len(payload) {
+		return response, fmt.Errorf("describe_acls response length did not match: %d!=%d", responseLength+4, len(payload))
+	}
 	offset += 4
 
 	response.CorrelationID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
-	if version >= 1 {
+	if version >= 2 {
 		_, o = DecodeTaggedFields(payload[offset:])
 		offset += o
 	}
@@ -181,7 +185,7 @@ func (r *DescribeAclsResponse) Encode(version uint16) (rst []byte, err error) {
 	binary.Write(buf, binary.BigEndian, uint32(0))
 
 	binary.Write(buf, binary.BigEndian, r.CorrelationID)
-	if version >= 1 {
+	if version >= 2 {
 		buf.Write(r.TaggedFields.Encode())
 	}
 	binary.Write(buf, binary.BigEndian, r.ThrottleTimeMs)
-- 
2.43.0


From 80857dbbbe6a3fe2d180df3383699a050eae01f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:31 +0000
Subject: [PATCH 20/91] fix: delete_acls v0 and v1 responses carry no tag
 buffers

---
 delete_acls_response.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/delete_acls_response.go b/delete_acls_response.go
index 3eb39ca..46fbceb 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -195,12 +195,16 @@ func DecodeDeleteAclsResponse(payload []byte, version uint16) (*DeleteAclsRespon
 			offset += o
 		}
 
-		r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
-		offset += o
+		if r.ResponseHeader.IsFlexible() {
+			r.FilterResults[i].TaggedFields, o = DecodeTaggedFields(payload[offset:])
+			offset += o
+		}
 	}
 
-	r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
-	offset += o
+	if r.ResponseHeader.IsFlexible() {
+		r.TaggedFields, o = DecodeTaggedFields(payload[offset:])
+		offset += o
+	}
 
 	return r, nil
 }
@@ -243,9 +247,13 @@ func (r *DeleteAclsResponse) Encode() (payload []byte) {
 			buf.Write(m.encode(r.ResponseHeader.apiVersion, r.ResponseHeader.IsFlexible()))
 		}
 
-		buf.Write(fr.TaggedFields.Encode())
+		if r.ResponseHeader.IsFlexible() {
+			buf.Write(fr.TaggedFields.Encode())
+		}
 	}
 
-	buf.Write(r.TaggedFields.Encode())
+	if r.ResponseHeader.IsFlexible() {
+		buf.Write(r.TaggedFields.Encode())
+	}
 	return buf.Bytes()
 }
-- 
2.43.0


From 21e9834dfacca0d874695ff4bfc3f51b87cfc1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:37 +0000
Subject: [PATCH 21/91] fix: read throttle_time_ms of CreateAcls responses

---
 create_acls_response.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/create_acls_response.go b/create_acls_response.go
index e7752fb..9b61edd 100644
--- a/create_acls_response.go
+++ b/create_acls_response.go
@@ -7,8 +7,9 @@ import (
 
 type CreateAclsResponse struct {
 	ResponseHeader
-	Results      []AclCreationResult
-	TaggedFields TaggedFields
+	ThrottleTimeMs int32
+	Results        []AclCreationResult
+	TaggedFields   TaggedFields
 }
 
 type AclCreationResult struct {
@@ -42,6 +43,9 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 	r.ResponseHeader, o = DecodeResponseHeader(payload[offset:], API_CreateAcls, version)
 	offset += o
 
+	r.ThrottleTimeMs = int32(binary.BigEndian.Uint32(payload[offset:]))
+	offset += 4
+
 	var resultCount int32
 	if r.ResponseHeader.IsFlexible() {
 		resultCount, o = compactArrayLength(payload[offset:])
@@ -85,6 +89,7 @@ func DecodeCreateAclsResponse(payload []byte, version uint16) (*CreateAclsRespon
 
 func (r *CreateAclsResponse) length() (n int) {
 	n += r.ResponseHeader.length()
+	n += 4 // throttle time
 	n += 4 // results count
 	for _, result := range r.Results {
 		n += 2 // error code
@@ -109,6 +114,10 @@ func (r *CreateAclsResponse) Encode() (payload []byte) {
 	}()
 
 	offset += r.ResponseHeader.EncodeTo(payload[offset:])
+
+	binary.BigEndian.PutUint32(payload[offset:], uint32(r.ThrottleTimeMs))
+	offset += 4
+
 	if r.ResponseHeader.IsFlexible() {
 		offset += copy(payload[offset:], encodeCompactArrayLength(len(r.Results)))
 	} else {
-- 
2.43.0


From 75a49a29998db351c87a5cba4df9193e2acf9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:51 +0000
Subject: [PATCH 22/91] fix: DescribeLogDirs correlation id is not the size
 field

---
 describe_logdirs_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/describe_logdirs_response.go b/describe_logdirs_response.go
index b30bdf3..286f1ad 100644
--- a/describe_logdirs_response.go
+++ b/describe_logdirs_response.go
@@ -95,7 +95,7 @@ func NewDescribeLogDirsResponse(payload []byte, version uint16) (r DescribeLogDi
 	}
 	offset += 4
 
-	r.CoordinatorID = binary.BigEndian.Uint32(payload)
+	r.CoordinatorID = binary.BigEndian.Uint32(payload[offset:])
 	offset += 4
 
 	r.ThrottleTimeMS = int32(binary.BigEndian.Uint32(payload[offset:]))
-- 
2.43.0


From 22e90bca48b8e2123f7d16a8544b1e71ae3d11ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:59 +0000
Subject: [PATCH 23/91] fix: do not dereference null error messages of broker
 responses

---
 alter_partition_reassignments_response.go | 4 ++--
 create_partitions_response.go             | 2 +-
 delete_acls_response.go                   | 4 ++--
 errorcode.go                              | 8 ++++++++
 4 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/alter_partition_reassignments_response.go b/alter_partition_reassignments_response.go
index 42162fe..3d03ca9 100644
--- a/alter_partition_reassignments_response.go
+++ b/alter_partition_reassignments_response.go
@@ -19,12 +19,12 @@ type AlterPartitionReassignmentsResponse struct {
 
 func (r *AlterPartitionReassignmentsResponse) Error() error {
 	if r.ErrorCode != 0 {
-		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), *r.ErrorMsg)
+		return fmt.Errorf("%w: %s", KafkaError(r.ErrorCode), nullableMessage(r.ErrorMsg))
 	}
 	for _, t := range r.Responses {
 		for _, p := range t.Partitions {
 			if p.ErrorCode != 0 {
-				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), *p.ErrorMsg)
+				return fmt.Errorf("%w: %s", KafkaError(p.ErrorCode), nullableMessage(p.ErrorMsg))
 			}
 		}
 	}
diff --git a/create_partitions_response.go b/create_partitions_response.go
index b7490fa..f577b76 100644
--- a/create_partitions_response.go
+++ b/create_partitions_response.go
@@ -24,7 +24,7 @@ type createPartitionsResponseResultBlock struct {
 func (r CreatePartitionsResponse) Error() error {
 	for _, result := range r.Results {
 		if result.ErrorCode != 0 {
-			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, *result.ErrorMessage, KafkaError(result.ErrorCode))
+			return fmt.Errorf("create partitions error(%d): %s: %w", result.ErrorCode, nullableMessage(result.ErrorMessage), KafkaError(result.ErrorCode))
 		}
 	}
 	return nil
diff --git a/delete_acls_response.go b/delete_acls_response.go
index 46fbceb..83dfdeb 100644
--- a/delete_acls_response.go
+++ b/delete_acls_response.go
@@ -126,12 +126,12 @@ type DeleteAclsResponse struct {
 func (r *DeleteAclsResponse) Error() (err error) {
 	for i := range r.FilterResults {
 		if r.FilterResults[i].ErrorCode != 0 {
-			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), *r.FilterResults[i].ErrorMessage)
+			return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].ErrorCode), nullableMessage(r.FilterResults[i].ErrorMessage))
 		}
 		for j := range r.FilterResults[i].MatchingAcls {
 			if r.FilterResults[i].MatchingAcls[j].ErrorCode != 0 {
 				return fmt.Errorf("%w: %s", KafkaError(r.FilterResults[i].MatchingAcls[j].ErrorCode),
-					*r.FilterResults[i].MatchingAcls[j].ErrorMessage)
+					nullableMessage(r.FilterResults[i].MatchingAcls[j].ErrorMessage))
 			}
 		}
 	}
diff --git a/errorcode.go b/errorcode.go
index d17df81..940f898 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -42,6 +42,14 @@ func getErrorFromErrorCode(errorcode int16) error {
 	return fmt.Errorf("unknown error code:%d", errorcode)
 }
 
+// nullableMessage returns the error message sent by the broker, which may be null
+func nullableMessage(msg *string) string {
+	if msg == nil {
+		return ""
+	}
+	return *msg
+}
+
 func init() {
 	AllError[-1] = &Error{
 		ErrorCode: -1,
-- 
2.43.0


From 1ba0569dd6183d2b5218111a925c356fbb0e27ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:10 +0000
Subject: [PATCH 24/91] fix: report the error code of ListGroups responses

---
 list_groups_response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/list_groups_response.go b/list_groups_response.go
index 000ad86..5c03adb 100644
--- a/list_groups_response.go
+++ b/list_groups_response.go
@@ -25,7 +25,7 @@ type ListGroupsResponse struct {
 }
 
 func (r *ListGroupsResponse) Error() error {
-	return nil
+	return getErrorFromErrorCode(int16(r.ErrorCode))
 }
 
 func (g *Group) tags() (fieldsVersions map[string]uint16) {
-- 
2.43.0


From 97d577822eed7b2916abfac41874a63bfe7db3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:01 +0000
Subject: [PATCH 25/91] fix: keep null and empty keys, values and header values
 of records apart

---
 record.go | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/record.go b/record.go
index 3dfdb3d..da67030 100644
--- a/record.go
+++ b/record.go
@@ -22,8 +22,10 @@ func decodeHeader(payload []byte) (header RecordHeader, offset int) {
 
 	valueLength, o := binary.Varint(payload[offset:])
 	offset += o
-	header.Value = make([]byte, valueLength)
-	offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	if valueLength >= 0 {
+		header.Value = make([]byte, valueLength)
+		offset += copy(header.Value, payload[offset:offset+int(valueLength)])
+	}
 	return
 }
 
@@ -65,7 +67,7 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	keyLenBuf := make([]byte, binary.MaxVarintLen64)
 	if r.key == nil {
-		binary.PutVarint(keyLenBuf, -1)
+		n = binary.PutVarint(keyLenBuf, -1)
 	} else {
 		n = binary.PutVarint(keyLenBuf, int64(len(r.key)))
 	}
@@ -74,7 +76,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 	// Encode value
 	valueLenBuf := make([]byte, binary.MaxVarintLen64)
-	n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	if r.value == nil {
+		n = binary.PutVarint(valueLenBuf, -1)
+	} else {
+		n = binary.PutVarint(valueLenBuf, int64(len(r.value)))
+	}
 	buf.Write(valueLenBuf[:n])
 	buf.Write(r.value)
 
@@ -101,7 +107,11 @@ func (r *Record) Encode(version uint16) (payload []byte, err error) {
 
 		// Encode Value length
 		valueLenBuf := make([]byte, binary.MaxVarintLen64)
-		n = binary.PutVarint(valueLenBuf, int64(len(header.Value)))
+		if header.Value == nil {
+			n = binary.PutVarint(valueLenBuf, -1)
+		} else {
+			n = binary.PutVarint(valueLenBuf, int64(len(header.Value)))
+		}
 		if _, err := buf.Write(valueLenBuf[:n]); err != nil {
 			return nil, err
 		}
@@ -155,14 +165,14 @@ func DecodeToRecord(payload []byte) (record Record, offset int, err error) {
 	keyLength, o := binary.Varint(payload[offset:])
 	offset += o
 
-	if keyLength > 0 {
+	if keyLength >= 0 {
 		record.key = make([]byte, keyLength)
 		offset += copy(record.key, payload[offset:offset+int(keyLength)])
 	}
 
 	valueLen, o := binary.Varint(payload[offset:])
 	offset += o
-	if valueLen > 0 {
+	if valueLen >= 0 {
 		record.value = make([]byte, valueLen)
 		offset += copy(record.value, payload[offset:offset+int(valueLen)])
 	}
-- 
2.43.0


From 359f9bab2b33fd127d00075f9f494f973e52743d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:07 +0000
Subject: [PATCH 26/91] fix: number the records of a produced batch and copy
 their keys

---
 simple_producer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/simple_producer.go b/simple_producer.go
index d304dc7..10233ce 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -1,6 +1,7 @@
 package healer
 
 import (
+	"bytes"
 	"context"
 	"fmt"
 	"sync"
@@ -136,16 +137,14 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 		return ErrProducerClosed
 	}
 
-	valueCopy := make([]byte, len(value))
-	copy(valueCopy, value)
-
 	record := Record{
 		attributes:     0x00, // compress in upper message set level
 		timestampDelta: 0,
-		offsetDelta:    0,
+		offsetDelta:    int32(len(p.records)),
 
-		key:   key,
-		value: valueCopy,
+		// the caller may reuse its buffers; nil stays nil
+		key:   bytes.Clone(key),
+		value: bytes.Clone(value),
 	}
 
 	p.records = append(p.records, &record)
-- 
2.43.0


From 145b3d3764fb3feb53c72bc16eb1548eaa4b693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:42 +0000
Subject: [PATCH 27/91] fix: read the partition header of a fetch response in
 full

---
 fetch_response.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index fef9dfa..5b99086 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -92,6 +92,15 @@ func (streamDecoder *fetchResponseStreamDecoder) read(n int) (rst []byte, length
 	return rst, length, err
 }
 
+// readFull reads until p is full
+func (streamDecoder *fetchResponseStreamDecoder) readFull(p []byte) (n int, err error) {
+	defer func() {
+		streamDecoder.offset += n
+	}()
+
+	return io.ReadFull(streamDecoder.buffers, p)
+}
+
 // uncompress read all remaining bytes and uncompress them
 func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err error) {
 	switch CompressType(compress) {
@@ -375,12 +384,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}()
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = streamDecoder.readFull(buf[:4]); err != nil {
 		return err
 	}
 	p.PartitionID = int32(binary.BigEndian.Uint32(buf))
 
-	if _, err = streamDecoder.Read(buf[:2]); err != nil {
+	if _, err = streamDecoder.readFull(buf[:2]); err != nil {
 		return err
 	}
 	p.ErrorCode = int16(binary.BigEndian.Uint16(buf))
@@ -388,24 +397,24 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		return KafkaError(p.ErrorCode)
 	}
 
-	if _, err = streamDecoder.Read(buf[:8]); err != nil {
+	if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 		return err
 	}
 	// p.HighWatermark = int64(binary.BigEndian.Uint64(buf))
 
 	switch version {
 	case 7, 10:
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 			return err
 		}
 		// p.LastStableOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:8]); err != nil {
+		if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 			return err
 		}
 		// p.LogStartOffset = int64(binary.BigEndian.Uint64(buf))
 
-		if _, err = streamDecoder.Read(buf[:4]); err != nil {
+		if _, err = streamDecoder.readFull(buf[:4]); err != nil {
 			return err
 		}
 		abortedTransactionsCount := int32(binary.BigEndian.Uint32(buf))
@@ -415,12 +424,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 				FirstOffset int64
 			}, abortedTransactionsCount)
 			for i := 0; i < int(abortedTransactionsCount); i++ {
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].ProducerID = int64(binary.BigEndian.Uint64(buf))
 
-				if _, err = streamDecoder.Read(buf[:8]); err != nil {
+				if _, err = streamDecoder.readFull(buf[:8]); err != nil {
 					return err
 				}
 				p.AbortedTransactions[i].FirstOffset = int64(binary.BigEndian.Uint64(buf))
@@ -428,7 +437,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 		}
 	}
 
-	if _, err = streamDecoder.Read(buf[:4]); err != nil {
+	if _, err = streamDecoder.readFull(buf[:4]); err != nil {
 		return err
 	}
 	p.RecordBatchesSize = int32(binary.BigEndian.Uint32(buf))
-- 
2.43.0


From f4fb7814a083442da91f503d91ca21503c179404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:48 +0000
Subject: [PATCH 28/91] fix: keep the decoding of a record set within its bytes

---
 fetch_response.go | 59 +++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 28 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 5b99086..6cadc0a 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -152,16 +152,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topic
 
 			// 12 is the size of offset(int64) & message_size(int32) in header17
 			value = make([]byte, 12+messageSize)
-			n, e := streamDecoder.Read(value[17:])
+			// an error here means the remaining bytes are incomplete
+			n, e := streamDecoder.readFull(value[17:])
 			offset += n
 			if e != nil {
 				return offset, e
 			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
 			copy(value, header17)
 		} else {
 			buf, n, err := streamDecoder.read(12)
@@ -169,21 +165,14 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSetMagic0or1(topic
 			if err != nil {
 				return offset, err
 			}
-			if n < 12 {
-				return offset, err
-			}
 			messageSize := int(binary.BigEndian.Uint32(buf[8:]))
 			value = make([]byte, 12+messageSize)
-			n, err = streamDecoder.Read(value[12:])
+			// an error here means the remaining bytes are incomplete
+			n, err = streamDecoder.readFull(value[12:])
 			offset += n
 			if err != nil {
 				return offset, err
 			}
-
-			// remaining bytes is incomplete
-			if n < len(value)-17 {
-				return offset, err
-			}
 			copy(value, buf)
 		}
 
@@ -248,18 +237,21 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// 	"baseTimestamp", baseTimestamp, "maxTimestamp", maxTimestamp, "producerID", producerID, "producerEpoch",
 	// 	producerEpoch, "baseSequence", baseSequence, "count", count)
 
-	if count <= 0 {
-		return
-	}
-
-	r := io.LimitReader(streamDecoder, int64(batchLength)-49)
+	r := &io.LimitedReader{R: streamDecoder, N: int64(batchLength) - 49}
 	// set offset immediately because we have to skip the data even if uncompress error
 	offset += int(batchLength) - 49
+	if count <= 0 {
+		_, err = io.Copy(io.Discard, r)
+		return offset, err
+	}
 	uncompressedBytes, err := uncompress(int8(compress), r)
 	if err != nil {
-		io.ReadAll(r) // read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
-		if streamDecoder.end() && streamDecoder.hasOneMessage {
-			return offset, nil
+		// read all remaining compressed bytes, since lz4 reader may not read all bytes before raise error
+		if _, e := io.Copy(io.Discard, r); e != nil {
+			return offset, e
+		}
+		if r.N > 0 { // the batch is incomplete
+			return offset, io.ErrUnexpectedEOF
 		}
 		return offset, fmt.Errorf("uncompress records bytes error: %w", err)
 	}
@@ -325,10 +317,9 @@ func (streamDecoder *fetchResponseStreamDecoder) putMessage(msg *FullMessage) er
 // that is, `Record Batch`,`Record Batch`,`Record Batch`...
 func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName string, partitionID int32, messageSetSizeBytes int32, version uint16) (err error) {
 	defer func() {
-		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) || err == &maxBytesTooSmall {
-			if streamDecoder.hasOneMessage {
-				err = nil
-			}
+		// the last message or batch of the record set is incomplete
+		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
+			err = nil
 		}
 		if !streamDecoder.hasOneMessage && err == nil {
 			err = &maxBytesTooSmall
@@ -379,7 +370,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 	)
 
 	defer func() {
-		if errors.Is(err, io.EOF) {
+		if streamDecoder.end() && (errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF)) {
 			err = &maxBytesTooSmall
 		}
 	}()
@@ -448,7 +439,19 @@ func (streamDecoder *fetchResponseStreamDecoder) decodePartitionResponse(topicNa
 	// RecordBatchLength consists of more than one Record, so we try to decode the messageSet
 	// if int(p.RecordBatchLength) > streamDecoder.totalLength-streamDecoder.offset { }
 
+	// bytes following the record set do not belong to it
+	responseReader := streamDecoder.buffers
+	recordSet := &io.LimitedReader{R: responseReader, N: int64(p.RecordBatchesSize)}
+	streamDecoder.buffers = recordSet
 	err = streamDecoder.decodeMessageSet(topicName, p.PartitionID, p.RecordBatchesSize, version)
+	_, e := streamDecoder.readAll()
+	streamDecoder.buffers = responseReader
+	if e == nil && recordSet.N > 0 && !streamDecoder.end() {
+		e = io.ErrUnexpectedEOF // connection closed in the middle of the record set
+	}
+	if e != nil && (err == nil || err == &maxBytesTooSmall) {
+		err = e
+	}
 	return err
 }
 
-- 
2.43.0


From 390490c0daad6a65b77f27f49c95786523e3735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:12 +0000
Subject: [PATCH 29/91] fix: decompress messages of the old formats, refuse
 unknown compression codecs

---
 fetch_response.go |  4 +++-
 message.go        | 16 +++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 6cadc0a..8c7e763 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -132,6 +132,8 @@ func uncompress(compress int8, reader io.Reader) (uncompressedBytes []byte, err
 		if err != nil {
 			return nil, fmt.Errorf("uncompress lz4 records error: %w", err)
 		}
+	default:
+		return nil, fmt.Errorf("unknown compression type %d", compress)
 	}
 	return uncompressedBytes, nil
 }
@@ -221,7 +223,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// magic := buf[16]
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
-	compress := attributes & 0b11
+	compress := attributes & 0b111
 	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
 	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
diff --git a/message.go b/message.go
index 5d1c319..ad350ee 100644
--- a/message.go
+++ b/message.go
@@ -1,9 +1,9 @@
 package healer
 
 import (
+	"bytes"
 	"encoding/binary"
 	"errors"
-	"fmt"
 	"hash/crc32"
 )
 
@@ -38,12 +38,7 @@ type Message struct {
 type MessageSet []*Message
 
 func (message *Message) decompress() ([]byte, error) {
-	compression := CompressType(message.Attributes & 0b11)
-	compressor := NewCompressor(compression.String())
-	if compressor == nil {
-		return nil, fmt.Errorf("unknown Compression Type %s", compression)
-	}
-	return compressor.Compress(message.Value)
+	return uncompress(message.Attributes&0x07, bytes.NewReader(message.Value))
 }
 
 func (messageSet *MessageSet) Length() int {
@@ -175,6 +170,13 @@ func DecodeToMessageSet(payload []byte) (MessageSet, error) {
 				// TODO go on to next message in the messageSet?
 				return messageSet, err
 			}
+			// offsets in a wrapper with magic 1 are relative, the wrapper has the absolute offset of the last one
+			if message.MagicByte == 1 && len(_messageSet) > 0 {
+				base := message.Offset - _messageSet[len(_messageSet)-1].Offset
+				for _, m := range _messageSet {
+					m.Offset += base
+				}
+			}
 			messageSet = append(messageSet, _messageSet...)
 		} else {
 			messageSet = append(messageSet, message)
-- 
2.43.0


From 9c39354704c6609bf1b893fdeb31402d01859efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:19 +0000
Subject: [PATCH 30/91] fix: use the append time of batches stamped by the
 broker

---
 fetch_response.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fetch_response.go b/fetch_response.go
index 8c7e763..8da46af 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -226,7 +226,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	compress := attributes & 0b111
 	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
-	// maxTimestamp := binary.BigEndian.Uint64(buf[35:])
+	maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
 	// producerEpoch := binary.BigEndian.Uint16(buf[51:])
 	// baseSequence := binary.BigEndian.Uint32(buf[53:])
@@ -277,6 +277,9 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 			Value:      record.value,
 			Headers:    record.Headers,
 		}
+		if attributes&0b1000 != 0 { // LogAppendTime
+			message.Timestamp = maxTimestamp
+		}
 		if err = streamDecoder.filterAndPutMessage(message, topicName, partitionID); err != nil {
 			return offset, err
 		}
-- 
2.43.0


From 66bf8c404e1bbec3d6edfd446646b76af5b0ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:25 +0000
Subject: [PATCH 31/91] fix: drain a fetch response before its error is
 delivered

---
 fetch_response.go  | 65 ++++++++++++++++++++++++----------------------
 simple_consumer.go |  5 ++--
 2 files changed, 37 insertions(+), 33 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 8da46af..24dcb1f 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -520,6 +520,11 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeHeader(version uint16) er
 
 	streamDecoder.correlationID = int32(binary.BigEndian.Uint32(buffer))
 	streamDecoder.responsesCount = int(binary.BigEndian.Uint32(buffer[countOffset:]))
+	if version >= 7 {
+		if errorCode := int16(binary.BigEndian.Uint16(buffer[8:])); errorCode != 0 {
+			return KafkaError(errorCode)
+		}
+	}
 	return nil
 }
 
@@ -528,41 +533,39 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 	streamDecoder.startOffset = startOffset
 	streamDecoder.hasOneMessage = false
 
-	if err := streamDecoder.decodeHeader(streamDecoder.version); err != nil {
-		return err
+	err := streamDecoder.decodeHeader(streamDecoder.version)
+	if err == nil {
+		logger.V(5).Info("decode fetch response", "correlationID", streamDecoder.correlationID, "responsesCount", streamDecoder.responsesCount)
+		for i := 0; i < streamDecoder.responsesCount; i++ {
+			if err = streamDecoder.decodeResponses(streamDecoder.version); err != nil {
+				break
+			}
+		}
 	}
-	defer func() {
-		// 将 LimitedReader 中的剩余数据读取完毕
-		streamDecoder.readAll()
 
-		logger.V(5).Info("decode fetch response done", "correlationID", streamDecoder.correlationID)
-	}()
-
-	if streamDecoder.responsesCount == 0 {
+	// 将 LimitedReader 中的剩余数据读取完毕. The next request may be sent as soon as the error is delivered
+	if _, e := streamDecoder.readAll(); e != nil {
+		err = e
+	} else if !streamDecoder.end() {
+		err = io.ErrUnexpectedEOF
+	}
+	logger.V(5).Info("decode fetch response done", "correlationID", streamDecoder.correlationID)
+	if err == nil {
 		return nil
 	}
 
-	logger.V(5).Info("decode fetch response", "correlationID", streamDecoder.correlationID, "responsesCount", streamDecoder.responsesCount)
-
-	for i := 0; i < streamDecoder.responsesCount; i++ {
-		err := streamDecoder.decodeResponses(streamDecoder.version)
-		if err != nil {
-			msg := &FullMessage{
-				TopicName:   "",
-				PartitionID: -1,
-				Error:       err,
-				Message:     nil,
-			}
-			select {
-			case <-ctx.Done():
-				return ctx.Err()
-			case <-streamDecoder.ctx.Done():
-				return streamDecoder.ctx.Err()
-			case streamDecoder.messages <- msg:
-				return nil
-			}
-		}
+	msg := &FullMessage{
+		TopicName:   "",
+		PartitionID: -1,
+		Error:       err,
+		Message:     nil,
+	}
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case <-streamDecoder.ctx.Done():
+		return streamDecoder.ctx.Err()
+	case streamDecoder.messages <- msg:
+		return nil
 	}
-
-	return nil
 }
diff --git a/simple_consumer.go b/simple_consumer.go
index 273af5b..6564366 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -5,9 +5,9 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"net"
 	"os"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -467,7 +467,8 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 		}
 		if message.Error != nil {
 			logger.Error(message.Error, "message error", "topic", c.topic, "partitionID", c.partitionID)
-			if os.IsTimeout(message.Error) || errors.Is(message.Error, io.EOF) || errors.Is(message.Error, syscall.EPIPE) {
+			var netErr net.Error
+			if os.IsTimeout(message.Error) || errors.As(message.Error, &netErr) || errors.Is(message.Error, io.EOF) || errors.Is(message.Error, io.ErrUnexpectedEOF) {
 				c.leaderBroker.Close()
 			} else if message.Error == &maxBytesTooSmall {
 				c.config.FetchMaxBytes *= 2
-- 
2.43.0


From 1e58e54887a450e16b0d4f9067660dca465c9fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:05 +0000
Subject: [PATCH 32/91] fix: go on after batches without messages, do not
 deliver control records

---
 fetch_response.go  | 16 +++++++++++++---
 simple_consumer.go |  6 +++++-
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/fetch_response.go b/fetch_response.go
index 24dcb1f..b289903 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -54,6 +54,9 @@ type fetchResponseStreamDecoder struct {
 
 	startOffset int64
 
+	// nextOffset is the offset following the last batch which has been decoded completely
+	nextOffset int64
+
 	hasOneMessage bool
 }
 
@@ -224,7 +227,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	// crc := binary.BigEndian.Uint32(buf[17:])
 	attributes := binary.BigEndian.Uint16(buf[21:])
 	compress := attributes & 0b111
-	// lastOffsetDelta := binary.BigEndian.Uint32(buf[23:])
+	lastOffsetDelta := int32(binary.BigEndian.Uint32(buf[23:]))
 	baseTimestamp := binary.BigEndian.Uint64(buf[27:])
 	maxTimestamp := binary.BigEndian.Uint64(buf[35:])
 	// producerID := binary.BigEndian.Uint64(buf[43:])
@@ -242,8 +245,12 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 	r := &io.LimitedReader{R: streamDecoder, N: int64(batchLength) - 49}
 	// set offset immediately because we have to skip the data even if uncompress error
 	offset += int(batchLength) - 49
-	if count <= 0 {
+	// records may have been removed by compaction, and control records are not for users
+	if count <= 0 || attributes&0b100000 != 0 {
 		_, err = io.Copy(io.Discard, r)
+		if err == nil && r.N <= 0 {
+			streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
+		}
 		return offset, err
 	}
 	uncompressedBytes, err := uncompress(int8(compress), r)
@@ -285,6 +292,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeRecordsMagic2(topicName s
 		}
 	}
 
+	streamDecoder.nextOffset = baseOffset + int64(lastOffsetDelta) + 1
 	return offset, nil
 }
 
@@ -326,7 +334,7 @@ func (streamDecoder *fetchResponseStreamDecoder) decodeMessageSet(topicName stri
 		if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {
 			err = nil
 		}
-		if !streamDecoder.hasOneMessage && err == nil {
+		if !streamDecoder.hasOneMessage && streamDecoder.nextOffset <= streamDecoder.startOffset && err == nil {
 			err = &maxBytesTooSmall
 		}
 	}()
@@ -532,6 +540,7 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 	streamDecoder.offset = 0
 	streamDecoder.startOffset = startOffset
 	streamDecoder.hasOneMessage = false
+	streamDecoder.nextOffset = 0
 
 	err := streamDecoder.decodeHeader(streamDecoder.version)
 	if err == nil {
@@ -554,6 +563,7 @@ func (streamDecoder *fetchResponseStreamDecoder) streamDecode(ctx context.Contex
 		return nil
 	}
 
+	streamDecoder.nextOffset = 0
 	msg := &FullMessage{
 		TopicName:   "",
 		PartitionID: -1,
diff --git a/simple_consumer.go b/simple_consumer.go
index 6564366..1d16208 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -445,7 +445,11 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 		// consume all messages from one fetch response
 		wg.Add(1)
 		go func() {
-			c.consumeMessages(innerMessages, messages)
+			err := c.consumeMessages(innerMessages, messages)
+			// go on after batches which have no message to deliver at their end
+			if err == nil && frsd.nextOffset > c.offset {
+				c.offset = frsd.nextOffset
+			}
 			cancel()
 			wg.Done()
 		}()
-- 
2.43.0


From 1755fa793d757ed3c4dbf1be7880de80f893afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:06 +0000
Subject: [PATCH 33/91] fix: do not reuse a connection whose response has not
 been read

---
 broker.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/broker.go b/broker.go
index 4f44682..7608f89 100644
--- a/broker.go
+++ b/broker.go
@@ -11,7 +11,6 @@ import (
 	"net"
 	"os"
 	"sync"
-	"syscall"
 	"time"
 )
 
@@ -244,19 +243,17 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 		return nil, err
 	}
 
-	defer func() {
-		if os.IsTimeout(err) || errors.Is(err, io.EOF) || errors.Is(err, syscall.EPIPE) {
-			broker.Close()
-		}
-	}()
-
+	// the connection can not be used any more if the response has not been read completely,
+	// or the next request would get the response of this one
 	rp, err := broker.Request(r)
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 
 	resp, err = rp.ReadAndParse()
 	if err != nil {
+		broker.Close()
 		return nil, err
 	}
 	return resp, resp.Error()
-- 
2.43.0


From 8655116f477d9a55104ef8be8dbc4ded992c5176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:12 +0000
Subject: [PATCH 34/91] fix: read the length of a fetch response in full,
 report a failed write

---
 broker.go         | 20 ++++++++++----------
 fetch_response.go |  2 --
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/broker.go b/broker.go
index 7608f89..39e4671 100644
--- a/broker.go
+++ b/broker.go
@@ -290,19 +290,17 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	io.Copy(broker.conn, bytes.NewBuffer(payload))
+	if _, err = io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+		return nil, responseLength, err
+	}
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
 		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	n, err := broker.conn.Read(responseLengthBuf)
-	if err != nil {
+	if _, err = io.ReadFull(broker.conn, responseLengthBuf); err != nil {
 		return nil, responseLength, err
 	}
-	if n != 4 {
-		return nil, responseLength, errShortRead
-	}
 
 	responseLength = binary.BigEndian.Uint32(responseLengthBuf)
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
@@ -365,13 +363,13 @@ func (broker *Broker) requestOffsets(clientID, topic string, partitionIDs []int3
 }
 
 func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.Reader, responseLength uint32, err error) {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
 	if err := broker.ensureOpen(); err != nil {
 		return nil, 0, err
 	}
 
-	broker.mux.Lock()
-	defer broker.mux.Unlock()
-
 	broker.correlationID++
 
 	fetchRequest.SetCorrelationID(broker.correlationID)
@@ -379,7 +377,9 @@ func (broker *Broker) requestFetchStreamingly(fetchRequest *FetchRequest) (r io.
 
 	timeout := broker.config.Net.TimeoutMS
 	if len(broker.config.Net.TimeoutMSForEachAPI) > int(fetchRequest.API()) {
-		timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		if broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()] > 0 {
+			timeout = broker.config.Net.TimeoutMSForEachAPI[fetchRequest.API()]
+		}
 	}
 
 	return broker.requestStreamingly(payload, timeout)
diff --git a/fetch_response.go b/fetch_response.go
index b289903..42e2541 100644
--- a/fetch_response.go
+++ b/fetch_response.go
@@ -60,8 +60,6 @@ type fetchResponseStreamDecoder struct {
 	hasOneMessage bool
 }
 
-var errShortRead = errors.New("short read")
-
 func (streamDecoder *fetchResponseStreamDecoder) end() bool {
 	return streamDecoder.offset >= streamDecoder.totalLength
 }
-- 
2.43.0


From 9108fe70da0c1f55f8aa8bfc674f32f0bd403366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:19 +0000
Subject: [PATCH 35/91] fix: do not use a connection before it is
 authenticated, nor deadlock when reconnecting

---
 broker.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/broker.go b/broker.go
index 39e4671..aeb91ba 100644
--- a/broker.go
+++ b/broker.go
@@ -83,6 +83,7 @@ func (broker *Broker) createConnAndAuth() error {
 	clientID := "healer-init"
 	apiVersionsResponse, err := broker.requestAPIVersions(clientID)
 	if err != nil {
+		broker.Close()
 		return fmt.Errorf("failed to request api versions after creating new conn: %w", err)
 	}
 	broker.apiVersions = apiVersionsResponse.APIVersions
@@ -100,6 +101,7 @@ func (broker *Broker) createConnAndAuth() error {
 	if broker.config.Sasl.Mechanism != "" {
 		if err := broker.sendSaslAuthenticate(); err != nil {
 			logger.Error(err, "sasl authenticate failed", "nodeID", broker.nodeID, "adddress", broker.address)
+			broker.Close()
 			return err
 		}
 	}
@@ -163,24 +165,29 @@ func (broker *Broker) sendSaslAuthenticate() error {
 	)
 
 	saslHandShakeRequest := NewSaslHandShakeRequest(clientID, mechanism)
-	resp, err := broker.RequestAndGet(saslHandShakeRequest)
-	if err != nil {
+	if err := broker.requestAndGet(saslHandShakeRequest); err != nil {
 		return err
 	}
-	if resp.Error() != nil {
-		return resp.Error()
-	}
 
 	// authenticate
 	saslAuthenticateRequest := NewSaslAuthenticateRequest(clientID, user, password, mechanism)
-	resp, err = broker.RequestAndGet(saslAuthenticateRequest)
+	if saslAuthenticateRequest.RequestHeader == nil {
+		return fmt.Errorf("sasl mechanism %s is not supported", mechanism)
+	}
+	return broker.requestAndGet(saslAuthenticateRequest)
+}
+
+// requestAndGet is used while the connection is being set up, when the lock may be held by RequestAndGet
+func (broker *Broker) requestAndGet(r Request) error {
+	rp, err := broker.Request(r)
 	if err != nil {
 		return err
 	}
-	if resp.Error() != nil {
-		return resp.Error()
+	resp, err := rp.ReadAndParse()
+	if err != nil {
+		return err
 	}
-	return nil
+	return resp.Error()
 }
 
 // GetAddress returns the broker address
-- 
2.43.0


From 8f474fcd516ae9f644adfa97101a399bab2a90e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:42 +0000
Subject: [PATCH 36/91] fix: go on from the configured end when the offset is
 out of range

---
 simple_consumer.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 1d16208..fcb620c 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -350,6 +350,8 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	c.messages = messages
 
 	c.offset = offset
+	// where to go on if there is no committed offset, or if the offset gets out of range
+	c.fromBeginning = offset == -2 || (offset >= 0 && c.config.FromBeginning)
 
 	logger.V(5).Info("start consume from offset (before fetch offset)", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 
@@ -479,9 +481,11 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-				c.offset, err = c.getOffset(c.fromBeginning)
-				if err != nil {
+				var offset int64
+				if offset, err = c.getOffset(c.fromBeginning); err != nil {
 					logger.Error(err, "failed to get offset", "topic", c.topic, "partitionID", c.partitionID)
+				} else {
+					c.offset = offset
 				}
 			} else if errors.Is(message.Error, KafkaError(6)) {
 				c.leaderBroker.Close()
-- 
2.43.0


From d48ba0e42d9cdb87d5e5408938c3029ec435bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:48 +0000
Subject: [PATCH 37/91] fix: do not let fetch.max.bytes overflow

---
 simple_consumer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index fcb620c..fa27b7f 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"math"
 	"net"
 	"os"
 	"sync"
@@ -477,7 +478,11 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 			if os.IsTimeout(message.Error) || errors.As(message.Error, &netErr) || errors.Is(message.Error, io.EOF) || errors.Is(message.Error, io.ErrUnexpectedEOF) {
 				c.leaderBroker.Close()
 			} else if message.Error == &maxBytesTooSmall {
-				c.config.FetchMaxBytes *= 2
+				if c.config.FetchMaxBytes <= math.MaxInt32/2 {
+					c.config.FetchMaxBytes *= 2
+				} else {
+					c.config.FetchMaxBytes = math.MaxInt32
+				}
 				logger.Info("fetch.max.bytes is too small, double it", "new FetchMaxBytes", c.config.FetchMaxBytes)
 			}
 			if errors.Is(message.Error, KafkaError(1)) {
-- 
2.43.0


From ed435cc6bf3e1fa3b4aca5b38a93e6767d1f38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:53 +0000
Subject: [PATCH 38/91] fix: do not panic when the new leader can not be
 reached

---
 simple_consumer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index fa27b7f..38d26b0 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -169,7 +169,7 @@ func (c *SimpleConsumer) getLeaderBroker() error {
 	leaderBroker, err = c.brokers.NewBroker(leaderID)
 	if err != nil {
 		// FIXME refresh metadata
-		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID, "leaderAddress", c.brokers.brokers[leaderID].address)
+		logger.Error(err, "could not create broker. maybe should refresh metadata.", "leaderID", leaderID)
 		return err
 	}
 
-- 
2.43.0


From 941166468a2d1ec51936bdb8f405e93064aafe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:59 +0000
Subject: [PATCH 39/91] fix: commit the offset that was looked at, never a
 negative one

---
 simple_consumer.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 38d26b0..f075c4a 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -295,7 +295,7 @@ func (c *SimpleConsumer) Stop() {
 }
 
 // call this when simpleConsumer NOT belong to GroupConsumer, or call BelongTo.Commit()
-func (c *SimpleConsumer) commitOffset() bool {
+func (c *SimpleConsumer) commitOffset(offset int64) bool {
 	var apiVersion uint16
 	if c.config.OffsetsStorage == 1 {
 		apiVersion = 2
@@ -307,14 +307,14 @@ func (c *SimpleConsumer) commitOffset() bool {
 	offsetComimtReq.SetMemberID("")
 	offsetComimtReq.SetGenerationID(-1)
 	offsetComimtReq.SetRetentionTime(-1)
-	offsetComimtReq.AddPartiton(c.topic, c.partitionID, c.offset, "")
+	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
 	if err == nil {
-		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 		return true
 	}
-	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
+	logger.Error(err, "commit offset failed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 	return false
 }
 
@@ -327,12 +327,15 @@ func (c *SimpleConsumer) CommitOffset() {
 		return
 	}
 	offset := c.offset
+	if offset < 0 { // not known yet
+		return
+	}
 	if c.belongTO != nil {
 		if c.belongTO.commitOffset(c.topic, c.partitionID, offset) {
 			c.offsetCommited = offset
 		}
 	} else if c.config.GroupID != "" {
-		if c.commitOffset() {
+		if c.commitOffset(offset) {
 			c.offsetCommited = offset
 		}
 	}
-- 
2.43.0


From 22a27ddcd6f88f3f22f4bc3037d1678d8f6b8ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:21 +0000
Subject: [PATCH 40/91] fix: look for the new leader when a fetch fails

---
 simple_consumer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/simple_consumer.go b/simple_consumer.go
index f075c4a..6234f17 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -425,6 +425,10 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 			}
 			logger.Error(err, "failed to fetch")
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			// leader may have been changed if the broker is down
+			if err = c.getLeaderBroker(); err != nil {
+				logger.Error(err, "failed to get leader", "topic", c.topic, "partitionID", c.partitionID)
+			}
 			continue
 		}
 
-- 
2.43.0


From 42f4c7ca6c20efc7c52cace7952ccf6c197a0ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:31 +0000
Subject: [PATCH 41/91] fix: do not panic when a broker is closed while a
 request is in flight

---
 broker.go   | 38 ++++++++++++++++++++++++++++++--------
 response.go | 12 ++++++++----
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/broker.go b/broker.go
index aeb91ba..d28e6ae 100644
--- a/broker.go
+++ b/broker.go
@@ -69,6 +69,8 @@ func (broker *Broker) createConn() error {
 	if conn, err := newConn(broker.GetAddress(), broker.config); err != nil {
 		return err
 	} else {
+		broker.closeLock.Lock()
+		defer broker.closeLock.Unlock()
 		broker.conn = conn
 		return nil
 	}
@@ -211,8 +213,20 @@ func (broker *Broker) Close() {
 		broker.conn = nil
 	}
 }
+
+// getConn returns the current connection. Close may be called at any time, even while a request is in flight
+func (broker *Broker) getConn() (net.Conn, error) {
+	broker.closeLock.Lock()
+	defer broker.closeLock.Unlock()
+
+	if broker.conn == nil {
+		return nil, net.ErrClosed
+	}
+	return broker.conn, nil
+}
+
 func (broker *Broker) ensureOpen() (err error) {
-	if broker.conn != nil {
+	if _, err := broker.getConn(); err == nil {
 		return nil
 	}
 	return broker.createConnAndAuth()
@@ -267,13 +281,17 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 }
 
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return defaultReadParser{}, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if _, err := io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+	if _, err := io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return defaultReadParser{}, err
 	}
 
@@ -291,21 +309,25 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 		}
 	}()
 
-	logger.V(5).Info("send request", "src", broker.conn.LocalAddr(), "dst", broker.conn.RemoteAddr())
+	conn, err := broker.getConn()
+	if err != nil {
+		return nil, responseLength, err
+	}
+	logger.V(5).Info("send request", "src", conn.LocalAddr(), "dst", conn.RemoteAddr())
 	api := ApiKey(binary.BigEndian.Uint16(payload[4:]))
 	apiVersion := binary.BigEndian.Uint16(payload[6:])
 	correlationID := binary.BigEndian.Uint32(payload[8:])
 	logger.V(5).Info("request info", "length", len(payload), "api", api, "apiVersion", apiVersion, "correlationID", correlationID, "timeout", timeout)
 
-	if _, err = io.Copy(broker.conn, bytes.NewBuffer(payload)); err != nil {
+	if _, err = io.Copy(conn, bytes.NewBuffer(payload)); err != nil {
 		return nil, responseLength, err
 	}
 
 	responseLengthBuf := make([]byte, 4)
 	if timeout > 0 {
-		broker.conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
+		conn.SetReadDeadline(time.Now().Add(time.Duration(timeout) * time.Millisecond))
 	}
-	if _, err = io.ReadFull(broker.conn, responseLengthBuf); err != nil {
+	if _, err = io.ReadFull(conn, responseLengthBuf); err != nil {
 		return nil, responseLength, err
 	}
 
@@ -313,7 +335,7 @@ func (broker *Broker) requestStreamingly(payload []byte, timeout int) (r io.Read
 	logger.V(5).Info("got responseLength", "responseLength", responseLength)
 
 	reader := &io.LimitedReader{
-		R: broker.conn,
+		R: conn,
 		N: int64(responseLength),
 	}
 	return reader, responseLength, nil
diff --git a/response.go b/response.go
index df43f67..5d75a71 100644
--- a/response.go
+++ b/response.go
@@ -43,14 +43,18 @@ func (p defaultReadParser) ReadAndParse() (Response, error) {
 
 // Read read a whole response data from broker. it firstly read length of the response data, then read the whole response data
 func (p defaultReadParser) Read() ([]byte, error) {
+	conn, err := p.broker.getConn()
+	if err != nil {
+		return nil, err
+	}
 	//TODO use LimitedReader
 	l := 0
 	responseLengthBuf := make([]byte, 4)
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(responseLengthBuf[l:])
+		length, err := conn.Read(responseLengthBuf[l:])
 		if err != nil {
 			return nil, err
 		}
@@ -66,9 +70,9 @@ func (p defaultReadParser) Read() ([]byte, error) {
 	readLength := 0
 	for {
 		if p.timeout > 0 {
-			p.broker.conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
+			conn.SetReadDeadline(time.Now().Add(time.Duration(p.timeout) * time.Millisecond))
 		}
-		length, err := p.broker.conn.Read(resp[4+readLength:])
+		length, err := conn.Read(resp[4+readLength:])
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 153648e26214c0e31dd3bb9daa8c28873a23507a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:05 +0000
Subject: [PATCH 42/91] fix: do not fetch again while a consumer is being
 stopped

---
 simple_consumer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 6234f17..299b07b 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -277,9 +277,10 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 // Stop the consumer and wait for all relating go-routines to exit
 func (c *SimpleConsumer) Stop() {
 	logger.Info("stopping simple consumer", "topic", c.topic, "partitionID", c.partitionID)
-	c.cancel()
-
+	// stop must be set before canceling, or consumeLoop may send one more fetch request
+	// while the response of the last one is still being read
 	c.stop = true
+	c.cancel()
 
 	c.consumeLoopWg.Wait()
 
-- 
2.43.0


From ded6b707022cfd8ad491fff34ae265c387ee2b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:58 +0000
Subject: [PATCH 43/91] fix: commit what has been delivered before Stop returns

---
 simple_consumer.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 299b07b..90a1fa4 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -246,7 +246,7 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		coordinator = c.coordinator
 	}
 
-	for {
+	for !c.stop {
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
@@ -354,6 +354,10 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 	}
 	c.messages = messages
 
+	// Stop waits until nothing started here is running any more
+	c.consumeLoopWg.Add(1)
+	defer c.consumeLoopWg.Done()
+
 	c.offset = offset
 	// where to go on if there is no committed offset, or if the offset gets out of range
 	c.fromBeginning = offset == -2 || (offset >= 0 && c.config.FromBeginning)
@@ -383,15 +387,22 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		logger.V(3).Info("offset after init offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 	}
 
+	if c.stop {
+		return messages, nil
+	}
+
+	loopDone := make(chan struct{})
 	if c.config.AutoCommit && c.config.GroupID != "" {
+		c.consumeLoopWg.Add(1)
 		go func() {
+			defer c.consumeLoopWg.Done()
 			ticker := time.NewTicker(time.Millisecond * time.Duration(c.config.AutoCommitIntervalMS))
 			defer ticker.Stop()
 			for {
 				select {
 				case <-ticker.C:
 					c.CommitOffset()
-				case <-c.ctx.Done():
+				case <-loopDone:
 					c.CommitOffset()
 					return
 				}
@@ -399,15 +410,17 @@ func (c *SimpleConsumer) Consume(offset int64, messageChan chan *FullMessage) (<
 		}()
 	}
 
-	go c.consumeLoop(messages)
+	c.consumeLoopWg.Add(1)
+	go func() {
+		defer c.consumeLoopWg.Done()
+		defer close(loopDone)
+		c.consumeLoop(messages)
+	}()
 
 	return messages, nil
 }
 
 func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
-	c.consumeLoopWg.Add(1)
-	defer c.consumeLoopWg.Done()
-
 	defer logger.Info("consume loop exit", "topic", c.topic, "partitionID", c.partitionID)
 
 	wg := &sync.WaitGroup{}
-- 
2.43.0


From 721027107f503a7494eccae864cc36fc4759b24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:26 +0000
Subject: [PATCH 44/91] fix: encode the length of a member assignment's user
 data

---
 group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/group.go b/group.go
index 87debf1..502b760 100644
--- a/group.go
+++ b/group.go
@@ -49,6 +49,8 @@ func (memberAssignment *MemberAssignment) Encode() []byte {
 			offset += 4
 		}
 	}
+	binary.BigEndian.PutUint32(payload[offset:], uint32(len(memberAssignment.UserData)))
+	offset += 4
 	copy(payload[offset:], memberAssignment.UserData)
 
 	return payload
-- 
2.43.0


From 04454d74803b56aef0094c35dfdd4f8a5776a642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:31 +0000
Subject: [PATCH 45/91] fix: do not panic when nobody subscribes to a topic

---
 assign.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/assign.go b/assign.go
index d043cd1..e617343 100644
--- a/assign.go
+++ b/assign.go
@@ -16,6 +16,9 @@ type rangeAssignmentStrategy struct {
 // partitions in one topic
 // XXX (3,5)=>[(0,2),(2,2),(4,1)]  (5,10)=>[(0,2), (2,2), (4,2), (6,2), (8,2)]
 func (r *rangeAssignmentStrategy) assignPartitions(members []string, partitions []int32) map[string][]int32 {
+	if len(members) == 0 { // nobody subscribes to the topic
+		return nil
+	}
 	var (
 		rst       = make(map[string][]int32)
 		watershed = len(partitions) % len(members)
-- 
2.43.0


From 8b852692581de88fc99c2058000e33bc4089b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:30 +0000
Subject: [PATCH 46/91] fix: report that a partition has no leader

---
 simple_producer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 10233ce..bbb7e11 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -47,7 +47,10 @@ func (p *SimpleProducer) createLeader() (*Broker, error) {
 	}
 
 	leaderID, err := p.brokers.findLeader(p.config.ClientID, p.topic, p.partition)
-	if err != nil || leaderID == -1 {
+	if err == nil && leaderID == -1 {
+		err = errNoLeader
+	}
+	if err != nil {
 		logger.Error(err, "could not get leader", "topic", p.topic, "partitionID", p.partition)
 		return nil, err
 	}
-- 
2.43.0


From 0c7a6c26c999e27560bc5f8f267aa1ff0fb8d4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:36 +0000
Subject: [PATCH 47/91] fix: return the error when a full batch can not be sent

---
 simple_producer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index bbb7e11..49b42e9 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -154,7 +154,7 @@ func (p *SimpleProducer) AddMessage(key []byte, value []byte) error {
 	if len(p.records) >= p.config.MessageMaxCount {
 		records := p.records
 		p.records = make([]*Record, 0, p.config.MessageMaxCount)
-		p.flush(records)
+		return p.flush(records)
 	}
 	return nil
 }
-- 
2.43.0


From d9d76e37a42fa6717d6921eb540fc34c67c55113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:41 +0000
Subject: [PATCH 48/91] fix: do not send the last messages twice

---
 simple_producer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simple_producer.go b/simple_producer.go
index 49b42e9..c4b04f2 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -234,7 +234,9 @@ func (p *SimpleProducer) Close() {
 
 		logger.Info("flush before SimpleProducer close")
 		if len(p.records) > 0 {
-			p.flush(p.records)
+			records := p.records
+			p.records = nil // or they would be sent again by Flush
+			p.flush(records)
 		}
 
 		if p.parent == nil {
-- 
2.43.0


From b5eb3b63163900bb0450414727575425ca744204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:09 +0000
Subject: [PATCH 49/91] fix: find the new leader when producing fails

---
 simple_producer.go | 48 ++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/simple_producer.go b/simple_producer.go
index c4b04f2..bca733e 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -3,6 +3,7 @@ package healer
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"sync"
 	"time"
@@ -19,6 +20,8 @@ type SimpleProducer struct {
 	leader  *Broker
 	parent  *Producer
 
+	ownLeader bool // the connection to leader is not shared with other producers
+
 	topic     string
 	partition int32
 
@@ -109,6 +112,7 @@ func NewSimpleProducer(ctx context.Context, topic string, partition int32, confi
 		if err != nil {
 			return nil, fmt.Errorf("create producer leader error: %w", err)
 		}
+		p.ownLeader = true
 	}
 
 	parent := ctx.Value(parentProducerKey)
@@ -194,6 +198,42 @@ func (p *SimpleProducer) createRecordBatch(records []*Record) RecordBatch {
 }
 
 func (p *SimpleProducer) flush(records []*Record) error {
+	err := p.produce(records)
+	if err == nil {
+		return nil
+	}
+
+	logger.Error(err, "failed to produce request")
+	var kafkaError KafkaError
+	if errors.As(err, &kafkaError) && kafkaError != 3 && kafkaError != 5 && kafkaError != 6 {
+		return err
+	}
+
+	// the leader may have been changed
+	if e := p.changeLeader(); e != nil {
+		logger.Error(e, "failed to change leader", "topic", p.topic, "partition", p.partition)
+		return err
+	}
+	if kafkaError == 0 { // no answer, the records may have been written
+		return err
+	}
+	return p.produce(records)
+}
+
+func (p *SimpleProducer) changeLeader() error {
+	leader, err := p.createLeader()
+	if err != nil {
+		return err
+	}
+	if p.ownLeader {
+		p.leader.Close()
+	}
+	p.leader = leader
+	p.ownLeader = true
+	return nil
+}
+
+func (p *SimpleProducer) produce(records []*Record) error {
 	logger.V(5).Info("flush messsages", "count", len(records), "topic", p.topic, "partition", p.partition)
 
 	produceRequest := &ProduceRequest{
@@ -216,14 +256,10 @@ func (p *SimpleProducer) flush(records []*Record) error {
 	}
 
 	rp, err := p.leader.RequestAndGet(produceRequest)
-	if err == nil {
-		err = rp.Error()
-	}
 	if err != nil {
-		logger.Error(err, "failed to produce request")
 		return err
 	}
-	return err
+	return rp.Error()
 }
 
 // Close closes the producer
@@ -239,7 +275,7 @@ func (p *SimpleProducer) Close() {
 			p.flush(records)
 		}
 
-		if p.parent == nil {
+		if p.ownLeader {
 			logger.Info("close connection to leader")
 			p.leader.Close()
 		} else {
-- 
2.43.0


From 683b5f360ac4fb61e0e09920091b525baf3774c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:14 +0000
Subject: [PATCH 50/91] fix: do not lose messages added to a closed Producer

---
 producer.go | 45 ++++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/producer.go b/producer.go
index a8cf18c..be1f186 100644
--- a/producer.go
+++ b/producer.go
@@ -27,6 +27,9 @@ type Producer struct {
 	currentProducer      *SimpleProducer
 	lock                 sync.Mutex
 
+	closeChan chan struct{}
+	closed    bool
+
 	ctx context.Context
 }
 
@@ -45,6 +48,7 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 		topic:                topic,
 		pidToSimpleProducers: make(map[int32]*SimpleProducer),
 		leaderBrokersMapping: make(map[int32]*Broker),
+		closeChan:            make(chan struct{}),
 	}
 
 	brokerConfig := getBrokerConfigFromProducerConfig(&cfg)
@@ -67,10 +71,17 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	p.ctx = context.WithValue(ctx, parentProducerKey, p)
 
 	go func() {
-		for range time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond).C {
-			err := p.updateCurrentSimpleProducer()
-			if err != nil {
-				logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+		ticker := time.NewTicker(time.Duration(cfg.MetadataMaxAgeMS) * time.Millisecond)
+		defer ticker.Stop()
+		for {
+			select {
+			case <-ticker.C:
+				err := p.updateCurrentSimpleProducer()
+				if err != nil {
+					logger.Error(err, "refresh simple producer failed", "topic", p.topic)
+				}
+			case <-p.closeChan:
+				return
 			}
 		}
 	}()
@@ -87,10 +98,10 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 	if err != nil {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
-	p.topicMeta = metadataResponse.TopicMetadatas[0]
+	topicMeta := metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
-	for _, partition := range p.topicMeta.PartitionMetadatas {
+	for _, partition := range topicMeta.PartitionMetadatas {
 		if partition.PartitionErrorCode == 0 {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
@@ -103,6 +114,11 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 
 	p.lock.Lock()
 	defer p.lock.Unlock()
+	if p.closed {
+		sp.Close()
+		return ErrProducerClosed
+	}
+	p.topicMeta = topicMeta
 	if p.currentProducer == nil {
 		logger.Info("init current simple producer", "leader", sp.leader)
 		p.currentProducer = sp
@@ -131,9 +147,12 @@ func (p *Producer) getLeaderID(pid int32) (int32, error) {
 
 // getSimpleProducer return the simple producer. if key is nil, return the current simple producer
 func (p *Producer) getSimpleProducer(key []byte) (*SimpleProducer, error) {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return nil, ErrProducerClosed
+	}
 	if key == nil {
-		p.lock.Lock()
-		defer p.lock.Unlock()
 		return p.currentProducer, nil
 	}
 
@@ -181,11 +200,19 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 		}
 		return err
 	}
-	return nil
+	return ErrProducerClosed
 }
 
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return
+	}
+	p.closed = true
+	close(p.closeChan)
+
 	if p.currentProducer != nil {
 		p.currentProducer.Close()
 	}
-- 
2.43.0


From f0183a6b5d1d4f74f3c4a14dfcfaed19312e325c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:37 +0000
Subject: [PATCH 51/91] fix: produce to the other partitions when one has no
 leader

---
 producer.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/producer.go b/producer.go
index be1f186..73b1f77 100644
--- a/producer.go
+++ b/producer.go
@@ -2,6 +2,7 @@ package healer
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"math/rand"
 	"sync"
@@ -92,12 +93,13 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 // update metadata and currentProducer
 func (p *Producer) updateCurrentSimpleProducer() error {
 	metadataResponse, err := p.brokers.RequestMetaData(p.config.ClientID, []string{p.topic})
-	if err == nil {
-		err = metadataResponse.Error()
-	}
-	if err != nil {
+	var kafkaError KafkaError
+	if err != nil && !errors.As(err, &kafkaError) {
 		return fmt.Errorf("get metadata of %s error: %w", p.topic, err)
 	}
+	if len(metadataResponse.TopicMetadatas) == 0 || metadataResponse.TopicMetadatas[0].TopicErrorCode != 0 {
+		return fmt.Errorf("no metadata of %s: %v", p.topic, err)
+	}
 	topicMeta := metadataResponse.TopicMetadatas[0]
 
 	validPartitionID := make([]int32, 0)
@@ -106,6 +108,9 @@ func (p *Producer) updateCurrentSimpleProducer() error {
 			validPartitionID = append(validPartitionID, partition.PartitionID)
 		}
 	}
+	if len(validPartitionID) == 0 {
+		return fmt.Errorf("no available partition of %s: %v", p.topic, err)
+	}
 	partitionID := validPartitionID[rand.Int31n(int32(len(validPartitionID)))]
 	sp, err := NewSimpleProducer(context.Background(), p.topic, partitionID, p.config)
 	if err != nil {
-- 
2.43.0


From fb1c918c668723ae47aa7f2234900372e6fe854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:44 +0000
Subject: [PATCH 52/91] fix: do not wait for an answer with acks 0

---
 broker.go          | 15 +++++++++++++++
 simple_producer.go |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/broker.go b/broker.go
index d28e6ae..51e85f2 100644
--- a/broker.go
+++ b/broker.go
@@ -280,6 +280,21 @@ func (broker *Broker) RequestAndGet(r Request) (resp Response, err error) {
 	return resp, resp.Error()
 }
 
+// requestWithoutResponse sends a request which is not answered by the broker
+func (broker *Broker) requestWithoutResponse(r Request) error {
+	broker.mux.Lock()
+	defer broker.mux.Unlock()
+
+	if err := broker.ensureOpen(); err != nil {
+		return err
+	}
+	_, err := broker.Request(r)
+	if err != nil {
+		broker.Close()
+	}
+	return err
+}
+
 func (broker *Broker) request(payload []byte, timeout int) (defaultReadParser, error) {
 	conn, err := broker.getConn()
 	if err != nil {
diff --git a/simple_producer.go b/simple_producer.go
index bca733e..7e0bc1c 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -255,6 +255,9 @@ func (p *SimpleProducer) produce(records []*Record) error {
 		p.createRecordBatch(records),
 	}
 
+	if p.config.Acks == 0 { // broker does not answer
+		return p.leader.requestWithoutResponse(produceRequest)
+	}
 	rp, err := p.leader.RequestAndGet(produceRequest)
 	if err != nil {
 		return err
-- 
2.43.0


From 02a82b600c97f7fc1d7f959f51dbe165c7b5dcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:51 +0000
Subject: [PATCH 53/91] fix: close the connections used for metadata when a
 producer is closed

---
 producer.go        | 1 +
 simple_producer.go | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/producer.go b/producer.go
index 73b1f77..7378dbb 100644
--- a/producer.go
+++ b/producer.go
@@ -228,4 +228,5 @@ func (p *Producer) Close() {
 	for _, broker := range p.leaderBrokersMapping {
 		broker.Close()
 	}
+	p.brokers.Close()
 }
diff --git a/simple_producer.go b/simple_producer.go
index 7e0bc1c..0125933 100644
--- a/simple_producer.go
+++ b/simple_producer.go
@@ -284,6 +284,9 @@ func (p *SimpleProducer) Close() {
 		} else {
 			logger.Info("connection not closed here, parent will close it")
 		}
+		if p.brokers != nil {
+			p.brokers.Close()
+		}
 
 		close(p.closeChan)
 		p.closed = true
-- 
2.43.0


From 12ea021c806de861b9057141f7f7fb38497aa094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:32 +0000
Subject: [PATCH 54/91] fix: do not panic when leaving the group fails

---
 broker.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/broker.go b/broker.go
index 51e85f2..b6a3c5a 100644
--- a/broker.go
+++ b/broker.go
@@ -479,5 +479,8 @@ func (broker *Broker) requestHeartbeat(clientID, groupID string, generationID in
 func (broker *Broker) requestLeaveGroup(clientID, groupID string, memberID string) (r LeaveGroupResponse, err error) {
 	leaveReq := NewLeaveGroupRequest(clientID, groupID, memberID)
 	resp, err := broker.RequestAndGet(leaveReq)
-	return resp.(LeaveGroupResponse), err
+	if v, ok := resp.(LeaveGroupResponse); ok {
+		return v, err
+	}
+	return r, err
 }
-- 
2.43.0


From 5d93e7c5ea043a9b65fcd0926c6b10ff077b02f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:38 +0000
Subject: [PATCH 55/91] fix: do not panic when deleting topics fails

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 3619d2d..15e2c71 100644
--- a/client.go
+++ b/client.go
@@ -157,7 +157,10 @@ func (c *Client) DeleteTopics(topics []string, timeoutMs int32) (r DeleteTopicsR
 	}
 
 	resp, err := controller.RequestAndGet(req)
-	return resp.(DeleteTopicsResponse), err
+	if v, ok := resp.(DeleteTopicsResponse); ok {
+		return v, err
+	}
+	return r, err
 }
 
 // CreateTopic creates a single topic with specified parameters
-- 
2.43.0


From daa98ebc7e7c5736aa86a86fac81edd77f0e8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:04 +0000
Subject: [PATCH 56/91] fix: do not start consumers after a group consumer is
 closed

---
 group_consumer.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 98c927a..58ba5cf 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -308,7 +308,7 @@ func (c *GroupConsumer) heartbeat() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.joined {
+	if !c.joined || c.closed {
 		return nil
 	}
 
@@ -374,13 +374,13 @@ func (c *GroupConsumer) stop() {
 	defer c.mutex.Unlock()
 
 	logger.Info("stop group consumer", "GroupID", c.config.GroupID, "simpleConsumerCount", len(c.simpleConsumers))
-	if c.simpleConsumers != nil {
+	if c.joined { // or they have not been started yet
 		for _, simpleConsumer := range c.simpleConsumers {
 			logger.Info("stop simple consumer", "topic", simpleConsumer.topic, "partitionID", simpleConsumer.partitionID)
 			simpleConsumer.Stop()
 		}
+		c.simpleConsumers = nil
 	}
-	c.simpleConsumers = nil
 
 	c.wg.Wait()
 }
@@ -491,6 +491,9 @@ func (c *GroupConsumer) Consume(messages chan *FullMessage) (<-chan *FullMessage
 		c.refreshMeta()
 	}()
 
+	// do not restart before it has started
+	c.restartLocker.Lock()
+	defer c.restartLocker.Unlock()
 	return c.consumeWithoutHeartBeat(c.config.FromBeginning)
 }
 
@@ -516,10 +519,22 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 
 	select {
 	case <-c.closeChan:
+		go func() {
+			<-joinedChan
+			c.dropAssigned()
+		}()
 		return c.messages, nil
 	case <-joinedChan:
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+
+	// AwaitClose does not wait for consumers which are started from now on
+	if c.closed {
+		c.dropAssigned()
+		return c.messages, nil
+	}
 	c.joined = true
 
 	// consume
@@ -539,6 +554,14 @@ func (c *GroupConsumer) consumeWithoutHeartBeat(fromBeginning bool) (chan *FullM
 	return c.messages, nil
 }
 
+// dropAssigned gives up the consumers which have been assigned but not started
+func (c *GroupConsumer) dropAssigned() {
+	for _, simpleConsumer := range c.simpleConsumers {
+		simpleConsumer.cancel()
+	}
+	c.simpleConsumers = nil
+}
+
 // return true if same
 func ifTopicMetadatasSame(a []TopicMetadata, b []TopicMetadata) bool {
 	if a == nil && b == nil {
-- 
2.43.0


From de146cb2a8c5642995b742abfb46b4dedf5a4745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:32 +0000
Subject: [PATCH 57/91] fix: look for the coordinator again after any network
 error

---
 group_consumer.go | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index 58ba5cf..c8fdb58 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -4,10 +4,8 @@ import (
 	"encoding/json"
 	"errors"
 	"fmt"
-	"io"
 	"os"
 	"strconv"
-	"strings"
 	"sync"
 	"time"
 )
@@ -191,18 +189,9 @@ func (c *GroupConsumer) join() error {
 			c.memberID = ""
 		}
 
-		if errors.Is(err, io.EOF) || errors.Is(err, KafkaError(15)) || errors.Is(err, KafkaError(16)) {
-			c.coordinatorAvailable = false
-		}
-
-		if strings.Contains(err.Error(), "connection refused") {
-			c.coordinatorAvailable = false
-		}
-
-		if strings.Contains(err.Error(), "network is unreachable") {
-			c.coordinatorAvailable = false
-		}
-		if strings.Contains(err.Error(), "i/o timeout") {
+		// find the coordinator again if it has been moved or could not be reached
+		var kafkaError KafkaError
+		if !errors.As(err, &kafkaError) || errors.Is(err, KafkaError(15)) || errors.Is(err, KafkaError(16)) {
 			c.coordinatorAvailable = false
 		}
 
-- 
2.43.0


From aba66e54f7f159999a32e0979711abd23ec9e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:57 +0000
Subject: [PATCH 58/91] fix: assign the partitions of a topic even if one has
 no leader

---
 group_consumer.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/group_consumer.go b/group_consumer.go
index c8fdb58..b4f3dad 100644
--- a/group_consumer.go
+++ b/group_consumer.go
@@ -93,7 +93,6 @@ func NewGroupConsumer(topic string, config interface{}) (*GroupConsumer, error)
 
 // request metadata and set partition metadat to group-consumer. only leader should request this
 func (c *GroupConsumer) getTopicPartitionInfo() {
-	// TODO if could not get meta, such as error 5:`There is no leader for this topic-partition as we are in the middle of a leadership election.`
 	var (
 		metaDataResponse MetadataResponse
 		err              error
@@ -112,7 +111,7 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 	}
 	for !c.closed {
 		metaDataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, c.topics)
-		if err == nil {
+		if err == nil || onlyPartitionErrors(metaDataResponse, err) {
 			break
 		} else {
 			logger.Error(err, "failed to get metadata", "topics", c.topics)
@@ -125,6 +124,21 @@ func (c *GroupConsumer) getTopicPartitionInfo() {
 	c.topicMetadatas = metaDataResponse.TopicMetadatas
 }
 
+// onlyPartitionErrors tells if err is about some partitions only, such as error 5:
+// `There is no leader for this topic-partition as we are in the middle of a leadership election.`
+func onlyPartitionErrors(r MetadataResponse, err error) bool {
+	var kafkaError KafkaError
+	if !errors.As(err, &kafkaError) {
+		return false
+	}
+	for _, topic := range r.TopicMetadatas {
+		if topic.TopicErrorCode != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 // TODO getCoordinator may executed in dead loop and create too many connections to kafka clusters
 // TODO put this to brokers?
 func (c *GroupConsumer) getCoordinator() error {
-- 
2.43.0


From 08a399ca9f2063be95c774415104f43164aa2b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:08 +0000
Subject: [PATCH 59/91] fix: give error code 119 its own entry

---
 errorcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/errorcode.go b/errorcode.go
index 940f898..b72a165 100644
--- a/errorcode.go
+++ b/errorcode.go
@@ -766,7 +766,7 @@ func init() {
 		Retriable: false,
 		ErrorDesc: "Client sent a push telemetry request larger than the maximum size the broker will accept.",
 	}
-	AllError[118] = &Error{
+	AllError[119] = &Error{
 		ErrorMsg:  "INVALID_REGISTRATION",
 		ErrorCode: 119,
 		Retriable: false,
-- 
2.43.0


From 44780a4f6100eb41cfefabc743b03d785f8e611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:14 +0000
Subject: [PATCH 60/91] fix: read UNKNOWN acl operation and permission type as
 unknown

---
 acl_types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/acl_types.go b/acl_types.go
index 65aa854..f99257e 100644
--- a/acl_types.go
+++ b/acl_types.go
@@ -182,7 +182,7 @@ func (o AclsOperation) MarshalText() ([]byte, error) {
 func (o *AclsOperation) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*o = AclsOperationAny
+		*o = AclsOperationUnknown
 	case "ANY", "1":
 		*o = AclsOperationAny
 	case "ALL", "2":
@@ -245,7 +245,7 @@ func (p AclsPermissionType) MarshalText() ([]byte, error) {
 func (p *AclsPermissionType) UnmarshalText(text []byte) error {
 	switch strings.ToUpper(string(text)) {
 	case "UNKNOWN", "0":
-		*p = AclsPermissionTypeAny
+		*p = AclsPermissionTypeUnkown
 	case "ANY", "1":
 		*p = AclsPermissionTypeAny
 	case "DENY", "2":
-- 
2.43.0


From 3eca3c3d546baf11ba39285798a6f9774673bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:37 +0000
Subject: [PATCH 61/91] fix: give each consumer its own timeouts

---
 config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/config.go b/config.go
index 1e0cc76..0c4bde0 100644
--- a/config.go
+++ b/config.go
@@ -133,9 +133,12 @@ func DefaultConsumerConfig() ConsumerConfig {
 }
 
 func (c *ConsumerConfig) resetTimeoutMSForEachAPI() {
-	if len(c.Net.TimeoutMSForEachAPI) == 0 {
-		c.Net.TimeoutMSForEachAPI = make([]int, 68)
+	// always a new slice: the old one may be shared with the default config, other consumers or the user
+	n := len(c.Net.TimeoutMSForEachAPI)
+	if n < 68 {
+		n = 68
 	}
+	c.Net.TimeoutMSForEachAPI = make([]int, n)
 	for i := range c.Net.TimeoutMSForEachAPI {
 		c.Net.TimeoutMSForEachAPI[i] = c.Net.TimeoutMS
 	}
-- 
2.43.0


From fcf2a6e5a908d7ed70f5ef77376fdaffc15496d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:42 +0000
Subject: [PATCH 62/91] fix: change any magic byte that is not supported to 2

---
 config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/config.go b/config.go
index 0c4bde0..b1a8ef2 100644
--- a/config.go
+++ b/config.go
@@ -260,7 +260,7 @@ var defaultProducerConfig = DefaultProducerConfig()
 func createProducerConfig(config interface{}) (c ProducerConfig, err error) {
 	// TODO support magic 0 and 1
 	defer func() {
-		if c.HealerMagicByte < 2 {
+		if c.HealerMagicByte != 2 {
 			c.HealerMagicByte = 2
 			logger.Info("ONLY SUPPORT MAGIC BYTE 2 FOR NOW, CHANGE IT TO 2")
 		}
-- 
2.43.0


From 39a775606a786b1f17dbaf048ce0945589fb5a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:48 +0000
Subject: [PATCH 63/91] fix: refuse intervals that are not positive

---
 config.go   | 14 +++++++++++++-
 producer.go |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/config.go b/config.go
index b1a8ef2..8bfe128 100644
--- a/config.go
+++ b/config.go
@@ -165,14 +165,20 @@ func createConsumerConfig(config interface{}) (c ConsumerConfig, err error) {
 			return defaultConsumerConfig, fmt.Errorf("decode consumer config error: %w", err)
 		}
 	case ConsumerConfig:
-		return config, nil
+		c = config
 	default:
 		return c, fmt.Errorf("consumer only accept config from map[string]interface{} or ConsumerConfig")
 	}
+	if c.AutoCommit && c.AutoCommitIntervalMS <= 0 {
+		return c, errAutoCommitIntervalMS
+	}
 	return c, err
 }
 
 var (
+	errAutoCommitIntervalMS         = errors.New("auto.commit.interval.ms must > 0")
+	errSessionTimeoutMS             = errors.New("session.timeout.ms must > 0")
+	errMetadataMaxAgeMS             = errors.New("metadata.max.age.ms must > 0")
 	errEmptyGroupID                 = errors.New("group.id is empty")
 	errInvallidOffsetsStorageConfig = errors.New("offsets.storage must be 0 or 1")
 )
@@ -187,6 +193,12 @@ func (config *ConsumerConfig) checkValid() error {
 	if config.OffsetsStorage != 0 && config.OffsetsStorage != 1 {
 		return errInvallidOffsetsStorageConfig
 	}
+	if config.SessionTimeoutMS <= 0 {
+		return errSessionTimeoutMS
+	}
+	if config.MetadataMaxAgeMS <= 0 {
+		return errMetadataMaxAgeMS
+	}
 	return nil
 }
 
diff --git a/producer.go b/producer.go
index 7378dbb..b3ce9ed 100644
--- a/producer.go
+++ b/producer.go
@@ -43,6 +43,9 @@ func NewProducer(topic string, config interface{}) (*Producer, error) {
 	if err != nil {
 		return nil, err
 	}
+	if cfg.MetadataMaxAgeMS <= 0 {
+		return nil, errMetadataMaxAgeMS
+	}
 
 	p := &Producer{
 		config:               cfg,
-- 
2.43.0


From 8e813864b6d41690232743dc32aa38253033f2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:52 +0000
Subject: [PATCH 64/91] fix: close connections to bootstrap servers that are
 not used

---
 brokers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/brokers.go b/brokers.go
index 94e993f..80278d4 100644
--- a/brokers.go
+++ b/brokers.go
@@ -50,6 +50,7 @@ func NewBrokersWithConfig(bootstrapServers string, config *BrokerConfig) (*Broke
 			brokers, err := newBrokersFromOne(broker, clientID, config)
 			if err != nil {
 				logger.Error(err, "could not create broker list", "address", broker)
+				broker.Close()
 			} else {
 				brokers.bootstrapServers = bootstrapServers
 				return brokers, nil
@@ -87,12 +88,17 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 	brokers.mutex.Lock()
 	defer brokers.mutex.Unlock()
 	brokers.controllerID = metadataResponse.ControllerID
+	used := false
 	for _, brokerInfo := range metadataResponse.Brokers {
 		brokers.brokersInfo[brokerInfo.NodeID] = brokerInfo
 		if broker.GetAddress() == brokerInfo.NetAddress() {
 			brokers.brokers[brokerInfo.NodeID] = broker
+			used = true
 		}
 	}
+	if !used { // the bootstrap server has another name in the cluster
+		broker.Close()
+	}
 
 	for nodeID, broker := range brokers.brokersInfo {
 		logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-- 
2.43.0


From 8ababb96db93faa011a22521bd231f86c81ea0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:58 +0000
Subject: [PATCH 65/91] fix: let Brokers be closed more than once

---
 brokers.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/brokers.go b/brokers.go
index 80278d4..3d2846e 100644
--- a/brokers.go
+++ b/brokers.go
@@ -25,7 +25,14 @@ type Brokers struct {
 
 // Close close all brokers
 func (brokers *Brokers) Close() {
-	close(brokers.closeChan)
+	brokers.mutex.Lock()
+	defer brokers.mutex.Unlock()
+
+	select {
+	case <-brokers.closeChan: // closed already
+	default:
+		close(brokers.closeChan)
+	}
 	for _, broker := range brokers.brokers {
 		broker.Close()
 	}
-- 
2.43.0


From 03caa65029979046f1e87ad527657532d85877a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:04 +0000
Subject: [PATCH 66/91] fix: do not panic if the metadata does not have the
 topic

---
 brokers.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/brokers.go b/brokers.go
index 3d2846e..cd92bbc 100644
--- a/brokers.go
+++ b/brokers.go
@@ -267,6 +267,9 @@ func (brokers *Brokers) RequestOffsets(clientID, topic string, partitionID int32
 	}
 
 	// TODO only one topic
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return nil, fmt.Errorf("could not find topic %s in metadata", topic)
+	}
 	topicMetadata := metadataResponse.TopicMetadatas[0]
 
 	if partitionID >= 0 {
@@ -314,6 +317,9 @@ func (brokers *Brokers) findLeader(clientID, topic string, partitionID int32) (i
 		return -1, fmt.Errorf("could not get metadata of topic %s: %w", topic, err)
 	}
 
+	if len(metadataResponse.TopicMetadatas) == 0 {
+		return -1, fmt.Errorf("could not find topic %s in metadata", topic)
+	}
 	partitionMetadatas := metadataResponse.TopicMetadatas[0].PartitionMetadatas
 	for _, partitionMetadata := range partitionMetadatas {
 		if partitionMetadata.PartitionID == partitionID {
-- 
2.43.0


From c1104b0fb9f0c5a8359e7850c259923da0c70c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:35 +0000
Subject: [PATCH 67/91] fix: take over the controller and leave no connection
 open when refreshing metadata

---
 brokers.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/brokers.go b/brokers.go
index cd92bbc..04a8fbe 100644
--- a/brokers.go
+++ b/brokers.go
@@ -136,9 +136,9 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
-			broker.Close()
 			continue
 		}
 
@@ -147,6 +147,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 			brokersInfo[brokerInfo.NodeID] = brokerInfo
 		}
 		brokers.brokersInfo = brokersInfo
+		brokers.controllerID = metadataResponse.ControllerID
 
 		for nodeID, broker := range brokers.brokersInfo {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
@@ -164,6 +165,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 		}
 
 		metadataResponse, err := broker.requestMetaData(clientID, topics)
+		broker.Close()
 		if len(metadataResponse.Brokers) == 0 {
 			logger.Info("no broker returned from metadata response")
 			continue
@@ -174,6 +176,7 @@ func (brokers *Brokers) refreshMetadata() bool {
 			brokersInfo[brokerInfo.NodeID] = brokerInfo
 		}
 		brokers.brokersInfo = brokersInfo
+		brokers.controllerID = metadataResponse.ControllerID
 
 		for nodeID, broker := range brokers.brokersInfo {
 			logger.V(3).Info("brokers in cluster", "nodeID", nodeID, "host", broker.Host, "port", broker.Port)
-- 
2.43.0


From db18042f193b7753909314376a49a1a5191e1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:38 +0000
Subject: [PATCH 68/91] fix: refresh metadata in Client.RefreshMetadata

---
 client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client.go b/client.go
index 15e2c71..f5b9505 100644
--- a/client.go
+++ b/client.go
@@ -38,6 +38,12 @@ func (c *Client) Close() {
 
 // RefreshMetadata refreshes metadata for c.brokers
 func (c *Client) RefreshMetadata() {
+	c.brokers.mutex.Lock()
+	defer c.brokers.mutex.Unlock()
+
+	if !c.brokers.refreshMetadata() {
+		c.logger.Info("failed to refresh metadata")
+	}
 }
 
 // ListGroups lists all consumer groups from all brokers
-- 
2.43.0


From 07e44e14673854aed92b20dc11ef67db97afd174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:44 +0000
Subject: [PATCH 69/91] fix: ask a broker for the configuration of its own
 loggers

---
 client.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index f5b9505..ce46e90 100644
--- a/client.go
+++ b/client.go
@@ -374,8 +374,8 @@ func (c *Client) DescribeConfigs(resourceType, resourceName string, keys []strin
 	req := NewDescribeConfigsRequest(c.clientID, resources)
 
 	var serverID int32
-	if resourceType == "broker" {
-		if brokerID, e := strconv.Atoi(resourceName); e != nil {
+	if resourceType == "broker" || resourceType == "broker_logger" {
+		if brokerID, e := strconv.ParseInt(resourceName, 10, 32); e != nil {
 			return r, fmt.Errorf("broker id must be a number")
 		} else {
 			serverID = int32(brokerID)
-- 
2.43.0


From f549c05630d7282f4cde51c52bec0aef294cb4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:50 +0000
Subject: [PATCH 70/91] fix: describe log directories of all topics if none is
 given

---
 client.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index ce46e90..c4e9a11 100644
--- a/client.go
+++ b/client.go
@@ -71,6 +71,9 @@ func (c *Client) ListGroups() (groups map[int32][]*Group, err error) {
 func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResponse, error) {
 	c.logger.Info("describe logdirs", "topics", topics)
 
+	if len(topics) == 0 { // all topics
+		topics = nil
+	}
 	meta, err := c.brokers.RequestMetaData(c.clientID, topics)
 	if err != nil {
 		return nil, err
@@ -132,7 +135,7 @@ func (c *Client) DescribeLogDirs(topics []string) (map[int32]DescribeLogDirsResp
 			theTopics := rs[i].Topics
 			filterdTopics := make([]DescribeLogDirsResponseTopic, 0)
 			for i := range theTopics {
-				if _, ok := topicSet[theTopics[i].TopicName]; ok {
+				if _, ok := topicSet[theTopics[i].TopicName]; ok || topics == nil {
 					filterdTopics = append(filterdTopics, theTopics[i])
 				}
 			}
-- 
2.43.0


From 7a2b697bac1947c9fddb17e290f26fb8f253b497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:23 +0000
Subject: [PATCH 71/91] fix: do not look up the coordinator if there is no
 group

---
 consumer.go | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/consumer.go b/consumer.go
index 9b72442..4aeec8d 100644
--- a/consumer.go
+++ b/consumer.go
@@ -106,16 +106,6 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		for _, p := range partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
 			simpleConsumer.wg = &c.wg
-
-			for {
-				err := simpleConsumer.getCoordinator()
-				if err != nil {
-					logger.Error(err, "get coordinator failed")
-					time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
-					continue
-				}
-				break
-			}
 			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
 		}
 	}
-- 
2.43.0


From ac1c1480a175e5cd467aab9db9fa46df95a2cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:40 +0000
Subject: [PATCH 72/91] fix: let a partition without leader not hold up the
 others

---
 consumer.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/consumer.go b/consumer.go
index 4aeec8d..1b22699 100644
--- a/consumer.go
+++ b/consumer.go
@@ -1,6 +1,7 @@
 package healer
 
 import (
+	"errors"
 	"sync"
 	"time"
 )
@@ -79,7 +80,8 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 	}
 
 	for !c.closed {
-		if metadataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics); err != nil {
+		metadataResponse, err = c.brokers.RequestMetaData(c.config.ClientID, topics)
+		if err != nil && !allTopicsKnown(err, metadataResponse) {
 			logger.Error(err, "get metadata failed", "topics", topics)
 			time.Sleep(time.Millisecond * 1000)
 		} else {
@@ -121,12 +123,28 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 
 	for _, simpleConsumer := range c.simpleConsumers {
 		c.wg.Add(1)
-		simpleConsumer.Consume(offset, messages)
+		// it may take long until the leader or the committed offset is got
+		go simpleConsumer.Consume(offset, messages)
 	}
 
 	return messages, nil
 }
 
+// allTopicsKnown tells if only partitions, but no topics, have errors in the metadata.
+// a partition without leader should not hold up the others
+func allTopicsKnown(err error, metadataResponse MetadataResponse) bool {
+	var e KafkaError
+	if !errors.As(err, &e) {
+		return false
+	}
+	for _, topic := range metadataResponse.TopicMetadatas {
+		if topic.TopicErrorCode != 0 {
+			return false
+		}
+	}
+	return true
+}
+
 func (c *Consumer) stop() {
 	c.closed = true
 	if c.simpleConsumers != nil {
-- 
2.43.0


From 63fabffcf7bd61d4b75b05fde5e83a454c017844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:36 +0000
Subject: [PATCH 73/91] fix: give the bootstrap broker its node id

---
 brokers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/brokers.go b/brokers.go
index 04a8fbe..fd4499b 100644
--- a/brokers.go
+++ b/brokers.go
@@ -99,6 +99,7 @@ func newBrokersFromOne(broker *Broker, clientID string, config *BrokerConfig) (*
 	for _, brokerInfo := range metadataResponse.Brokers {
 		brokers.brokersInfo[brokerInfo.NodeID] = brokerInfo
 		if broker.GetAddress() == brokerInfo.NetAddress() {
+			broker.nodeID = brokerInfo.NodeID
 			brokers.brokers[brokerInfo.NodeID] = broker
 			used = true
 		}
-- 
2.43.0


From 1bf939763f1336a868acf3e53f6484da6c9cfdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:42 +0000
Subject: [PATCH 74/91] fix: return from AwaitClose when its time is over

---
 consumer.go | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/consumer.go b/consumer.go
index 1b22699..0956a1b 100644
--- a/consumer.go
+++ b/consumer.go
@@ -155,23 +155,20 @@ func (c *Consumer) stop() {
 }
 
 func (consumer *Consumer) AwaitClose(timeout time.Duration) {
-	c := make(chan bool)
-	defer func() {
-		select {
-		case <-c:
-			logger.Info("all simple consumers stopped. return")
-			return
-		case <-time.After(timeout):
-			logger.Info("consumer await timeout. return")
-			return
-		}
-	}()
-
-	consumer.stop()
+	c := make(chan struct{})
 
 	go func() {
+		defer close(c)
+		// stop waits until the simple consumers have stopped, which may take long
+		consumer.stop()
 		consumer.wg.Wait()
 		consumer.brokers.Close()
-		c <- true
 	}()
+
+	select {
+	case <-c:
+		logger.Info("all simple consumers stopped. return")
+	case <-time.After(timeout):
+		logger.Info("consumer await timeout. return")
+	}
 }
-- 
2.43.0


From 3122fec929955aa4c66856709c717b066e240412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:09 +0000
Subject: [PATCH 75/91] fix: let Consume and AwaitClose of Consumer run at the
 same time

---
 consumer.go | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/consumer.go b/consumer.go
index 0956a1b..eb1fb9c 100644
--- a/consumer.go
+++ b/consumer.go
@@ -14,6 +14,7 @@ type Consumer struct {
 	brokers *Brokers
 	closed  bool
 
+	mutex           sync.Mutex // Consume and AwaitClose may be called by different goroutines
 	simpleConsumers []*SimpleConsumer
 	wg              sync.WaitGroup // wg is used to tell if all consumer has already stopped
 }
@@ -70,6 +71,15 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		messages = messageChan
 	}
 
+	c.mutex.Lock()
+	if c.closed {
+		c.mutex.Unlock()
+		return nil, nil
+	}
+	c.wg.Add(1) // AwaitClose waits until Consume has returned
+	c.mutex.Unlock()
+	defer c.wg.Done()
+
 	var (
 		metadataResponse MetadataResponse
 		err              error
@@ -92,7 +102,7 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		return nil, nil
 	}
 
-	c.simpleConsumers = make([]*SimpleConsumer, 0)
+	simpleConsumers := make([]*SimpleConsumer, 0)
 
 	for _, topicMetadatas := range metadataResponse.TopicMetadatas {
 		topicName := topicMetadatas.TopicName
@@ -108,11 +118,11 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		for _, p := range partitions {
 			simpleConsumer := NewSimpleConsumerWithBrokers(topicName, int32(p), c.config, c.brokers)
 			simpleConsumer.wg = &c.wg
-			c.simpleConsumers = append(c.simpleConsumers, simpleConsumer)
+			simpleConsumers = append(simpleConsumers, simpleConsumer)
 		}
 	}
 
-	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(c.simpleConsumers), "consumers", c.simpleConsumers)
+	logger.V(4).Info("create simple consumers", "simpleConsumerCount", len(simpleConsumers), "consumers", simpleConsumers)
 
 	var offset int64
 	if c.config.FromBeginning {
@@ -121,6 +131,15 @@ func (c *Consumer) Consume(messageChan chan *FullMessage) (<-chan *FullMessage,
 		offset = -1
 	}
 
+	c.mutex.Lock()
+	defer c.mutex.Unlock()
+	if c.closed {
+		for _, simpleConsumer := range simpleConsumers {
+			simpleConsumer.cancel() // it is not going to consume: only stop refreshing metadata
+		}
+		return nil, nil
+	}
+	c.simpleConsumers = simpleConsumers
 	for _, simpleConsumer := range c.simpleConsumers {
 		c.wg.Add(1)
 		// it may take long until the leader or the committed offset is got
@@ -146,11 +165,14 @@ func allTopicsKnown(err error, metadataResponse MetadataResponse) bool {
 }
 
 func (c *Consumer) stop() {
+	c.mutex.Lock()
 	c.closed = true
-	if c.simpleConsumers != nil {
-		for _, simpleConsumer := range c.simpleConsumers {
-			simpleConsumer.Stop()
-		}
+	simpleConsumers := c.simpleConsumers
+	c.simpleConsumers = nil
+	c.mutex.Unlock()
+
+	for _, simpleConsumer := range simpleConsumers {
+		simpleConsumer.Stop()
 	}
 }
 
-- 
2.43.0


From 23735986013d7debf0d5e3038a3fc83fa132f997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:15 +0000
Subject: [PATCH 76/91] fix: simple consumer looks the leader up again when the
 offset can not be got from it

---
 simple_consumer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/simple_consumer.go b/simple_consumer.go
index 90a1fa4..54036e2 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -197,6 +197,13 @@ func (c *SimpleConsumer) initOffset() {
 		if c.offset, err = c.getOffset(c.fromBeginning); err != nil {
 			logger.Error(err, "could not get offset", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(time.Millisecond * time.Duration(c.config.RetryBackOffMS))
+			// leader may have been changed
+			oldLeader := c.leaderBroker
+			if err = c.getLeaderBroker(); err != nil {
+				logger.Error(err, "failed to get leader", "topic", c.topic, "partitionID", c.partitionID)
+			} else if oldLeader != nil {
+				oldLeader.Close()
+			}
 		} else {
 			logger.Info("fetched offset", "topic", c.topic, "partitionID", c.partitionID, "offset", c.offset)
 			break
-- 
2.43.0


From 44e32a38006360b5c59ca1cda78aac7f3c294007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:20 +0000
Subject: [PATCH 77/91] fix: simple consumer looks the leader up again when the
 broker no longer has the partition

---
 simple_consumer.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 54036e2..0875536 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -488,6 +488,16 @@ func (c *SimpleConsumer) consumeLoop(messages chan *FullMessage) {
 	}
 }
 
+// leaderMayHaveMoved tells if the broker has refused to serve a partition in a way that another broker may serve it
+func leaderMayHaveMoved(err error) bool {
+	for _, code := range []KafkaError{3, 5, 6, 9, 56} {
+		if errors.Is(err, code) {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messages chan *FullMessage) (err error) {
 	var message *FullMessage
 	var ok bool
@@ -520,7 +530,7 @@ func (c *SimpleConsumer) consumeMessages(innerMessages chan *FullMessage, messag
 				} else {
 					c.offset = offset
 				}
-			} else if errors.Is(message.Error, KafkaError(6)) {
+			} else if leaderMayHaveMoved(message.Error) {
 				c.leaderBroker.Close()
 				c.leaderBroker = nil
 				for !c.stop {
-- 
2.43.0


From 31a0d7a5cc8441158c8e862c8f0f7341bc60be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:25 +0000
Subject: [PATCH 78/91] fix: simple consumer looks the coordinator up again
 when it does not serve the group

---
 simple_consumer.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/simple_consumer.go b/simple_consumer.go
index 0875536..15b1a4c 100644
--- a/simple_consumer.go
+++ b/simple_consumer.go
@@ -247,17 +247,21 @@ func (c *SimpleConsumer) getCommitedOffet() error {
 		coordinator *Broker
 	)
 
-	if c.belongTO != nil {
-		coordinator = c.belongTO.coordinator
-	} else {
-		coordinator = c.coordinator
-	}
-
 	for !c.stop {
+		if c.belongTO != nil {
+			coordinator = c.belongTO.coordinator
+		} else {
+			coordinator = c.coordinator
+		}
 		resp, err := coordinator.RequestAndGet(r)
 		if err != nil {
 			logger.Error(err, "failed to request fetch offset, sleep 500 ms", "topic", c.topic, "partitionID", c.partitionID)
 			time.Sleep(500 * time.Millisecond)
+			if c.belongTO == nil { // coordinator may have been changed
+				if err := c.getCoordinator(); err != nil {
+					logger.Error(err, "failed to get coordinator", "GroupID", c.config.GroupID)
+				}
+			}
 			continue
 		}
 
@@ -318,6 +322,12 @@ func (c *SimpleConsumer) commitOffset(offset int64) bool {
 	offsetComimtReq.AddPartiton(c.topic, c.partitionID, offset, "")
 
 	_, err := c.coordinator.RequestAndGet(offsetComimtReq)
+	if err != nil { // coordinator may have been changed
+		logger.Error(err, "commit offset failed, try again", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
+		if err = c.getCoordinator(); err == nil {
+			_, err = c.coordinator.RequestAndGet(offsetComimtReq)
+		}
+	}
 	if err == nil {
 		logger.V(3).Info("offset committed", "GroupID", c.config.GroupID, "topic", c.topic, "partitionID", c.partitionID, "offset", offset)
 		return true
-- 
2.43.0


From 98f1e3062107b8847fb6f9f3022c604016b5472f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:43 +0000
Subject: [PATCH 79/91] fix: producer commands fail if the messages could not
 be stored at the end

---
 command/healer/cmd/console-producer.go |  4 ++++
 command/healer/cmd/simple-producer.go  |  4 ++++
 producer.go                            | 18 ++++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 7e4e634..06cce9c 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -61,6 +61,10 @@ var consoleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
+		if err := consoleProducer.Flush(); err != nil {
+			return fmt.Errorf("flush messages error: %w", err)
+		}
+
 		return nil
 	},
 }
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 1fbb6ce..03d0291 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -65,6 +65,10 @@ var simpleProducerCmd = &cobra.Command{
 			return fmt.Errorf("scan stdin error: %w", err)
 		}
 
+		if err := simpleProducer.Flush(); err != nil {
+			return fmt.Errorf("flush messages error: %w", err)
+		}
+
 		return nil
 	},
 }
diff --git a/producer.go b/producer.go
index b3ce9ed..1d84118 100644
--- a/producer.go
+++ b/producer.go
@@ -211,6 +211,24 @@ func (p *Producer) AddMessage(key []byte, value []byte) error {
 	return ErrProducerClosed
 }
 
+// Flush sends all messages which have been added to kafka
+func (p *Producer) Flush() error {
+	p.lock.Lock()
+	defer p.lock.Unlock()
+	if p.closed {
+		return ErrProducerClosed
+	}
+
+	var errs []error
+	if p.currentProducer != nil {
+		errs = append(errs, p.currentProducer.Flush())
+	}
+	for _, sp := range p.pidToSimpleProducers {
+		errs = append(errs, sp.Flush())
+	}
+	return errors.Join(errs...)
+}
+
 // Close close all simple producers in the console producer
 func (p *Producer) Close() {
 	p.lock.Lock()
-- 
2.43.0


From 638f1526bbc97ff06f960951b2a888a3094cbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:46 +0000
Subject: [PATCH 80/91] fix: commands refuse a config which is not valid JSON

---
 command/healer/cmd/console-consumer.go | 6 +++++-
 command/healer/cmd/console-producer.go | 6 +++++-
 command/healer/cmd/group-consumer.go   | 6 +++++-
 command/healer/cmd/simple-consumer.go  | 6 +++++-
 command/healer/cmd/simple-producer.go  | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/command/healer/cmd/console-consumer.go b/command/healer/cmd/console-consumer.go
index 72bd844..8ae9f7f 100644
--- a/command/healer/cmd/console-consumer.go
+++ b/command/healer/cmd/console-consumer.go
@@ -51,7 +51,11 @@ var consoleConsumerCmd = &cobra.Command{
 			return err
 		}
 
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err = json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		var (
 			consumer *healer.Consumer
diff --git a/command/healer/cmd/console-producer.go b/command/healer/cmd/console-producer.go
index 06cce9c..8bb96d6 100644
--- a/command/healer/cmd/console-producer.go
+++ b/command/healer/cmd/console-producer.go
@@ -40,7 +40,11 @@ var consoleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if config != "" {
+			if err = json.Unmarshal([]byte(config), &producerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		consoleProducer, err := healer.NewProducer(topic, producerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 5a84994..7544c55 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -58,7 +58,11 @@ var groupConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err = json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		consumer, err := healer.NewGroupConsumer(topic, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-consumer.go b/command/healer/cmd/simple-consumer.go
index d10f593..bd64c9a 100644
--- a/command/healer/cmd/simple-consumer.go
+++ b/command/healer/cmd/simple-consumer.go
@@ -63,7 +63,11 @@ var simpleConsumerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &consumerConfig)
+		if config != "" {
+			if err = json.Unmarshal([]byte(config), &consumerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		simpleConsumer, err := healer.NewSimpleConsumer(topic, partition, consumerConfig)
 		if err != nil {
diff --git a/command/healer/cmd/simple-producer.go b/command/healer/cmd/simple-producer.go
index 03d0291..b1a0c27 100644
--- a/command/healer/cmd/simple-producer.go
+++ b/command/healer/cmd/simple-producer.go
@@ -45,7 +45,11 @@ var simpleProducerCmd = &cobra.Command{
 		if err != nil {
 			return err
 		}
-		json.Unmarshal([]byte(config), &producerConfig)
+		if config != "" {
+			if err = json.Unmarshal([]byte(config), &producerConfig); err != nil {
+				return fmt.Errorf("invalid config: %w", err)
+			}
+		}
 
 		simpleProducer, err := healer.NewSimpleProducer(context.Background(), topic, partition, producerConfig)
 		if err != nil {
-- 
2.43.0


From 6e8ad2700eda14b3f022de6bead865f98d4c0439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:50 +0000
Subject: [PATCH 81/91] fix: get-metadata fails if no metadata could be got

---
 command/healer/cmd/get-metadata.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command/healer/cmd/get-metadata.go b/command/healer/cmd/get-metadata.go
index 582f898..2331a43 100644
--- a/command/healer/cmd/get-metadata.go
+++ b/command/healer/cmd/get-metadata.go
@@ -2,6 +2,7 @@ package cmd
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	"github.com/childe/healer"
@@ -30,6 +31,11 @@ var getMetadataCmd = &cobra.Command{
 		} else {
 			metadataResponse, err = brokers.RequestMetaData(client, topics)
 		}
+		// error codes are shown in the metadata
+		var kafkaError healer.KafkaError
+		if err != nil && !errors.As(err, &kafkaError) {
+			return fmt.Errorf("failed to get metadata: %w", err)
+		}
 
 		switch format {
 		case "json":
-- 
2.43.0


From 98722feecfdc5d6307623f3c1d8038f1897074a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:53 +0000
Subject: [PATCH 82/91] fix: group-consumer does not commit messages it has not
 printed

---
 command/healer/cmd/group-consumer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/healer/cmd/group-consumer.go b/command/healer/cmd/group-consumer.go
index 7544c55..43c5af1 100644
--- a/command/healer/cmd/group-consumer.go
+++ b/command/healer/cmd/group-consumer.go
@@ -73,7 +73,8 @@ var groupConsumerCmd = &cobra.Command{
 
 		defer consumer.Close()
 
-		messages, err := consumer.Consume(nil)
+		// not buffered: messages which are not printed must not be committed
+		messages, err := consumer.Consume(make(chan *healer.FullMessage))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 404d96c39963b322720bab797ba6c0979f7e2c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:39 +0000
Subject: [PATCH 83/91] fix: acl commands take names as they are given and
 refuse unknown types

---
 command/healer/cmd/create-acls.go   | 20 +++++++++++++-------
 command/healer/cmd/delete-acls.go   | 20 +++++++++++++-------
 command/healer/cmd/describe-acls.go | 20 +++++++++++++-------
 3 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/command/healer/cmd/create-acls.go b/command/healer/cmd/create-acls.go
index 821f007..b01665e 100644
--- a/command/healer/cmd/create-acls.go
+++ b/command/healer/cmd/create-acls.go
@@ -31,17 +31,19 @@ var createAclsCmd = &cobra.Command{
 		aclCreation := healer.AclCreation{}
 
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &aclCreation.ResourceType)
+		if err = aclCreation.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &aclCreation.ResourceName)
+			aclCreation.ResourceName = resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
-		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &aclCreation.PatternType)
+		} else if err = aclCreation.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+			return err
 		}
 
 		if aclCreation.Principal, err = cmd.Flags().GetString("principal"); err != nil {
@@ -53,10 +55,14 @@ var createAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &aclCreation.Operation)
+		if err = aclCreation.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &aclCreation.PermissionType)
+		if err = aclCreation.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.CreateAcls([]healer.AclCreation{aclCreation})
 		if err != nil {
@@ -79,7 +85,7 @@ func init() {
 	createAclsCmd.Flags().String("patterntype", "match", "patterntype: any|match|literal|prefixed")
 	createAclsCmd.Flags().String("principal", "", "principal")
 	createAclsCmd.Flags().String("host", "", "host")
-	createAclsCmd.Flags().String("operation", "any", "operation: any|read|write|create|delete|alter|describe|clusteraction|describeconfigs|alterconfigs|idempotentwrite")
+	createAclsCmd.Flags().String("operation", "any", "operation: any|all|read|write|create|delete|alter|describe|cluster_action|describe_configs|alter_configs|idempotent_write")
 	createAclsCmd.Flags().String("permissiontype", "any", "permissiontype: any|allow|deny")
 
 	rootCmd.AddCommand(createAclsCmd)
diff --git a/command/healer/cmd/delete-acls.go b/command/healer/cmd/delete-acls.go
index f8409c7..afb568d 100644
--- a/command/healer/cmd/delete-acls.go
+++ b/command/healer/cmd/delete-acls.go
@@ -32,17 +32,19 @@ var deleteAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &f.ResourceType)
+		if err = f.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &f.ResourceName)
+			f.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
-		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &f.PatternType)
+		} else if err = f.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+			return err
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +68,14 @@ var deleteAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &f.Operation)
+		if err = f.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &f.PermissionType)
+		if err = f.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DeleteAcls([]*healer.DeleteAclsFilter{f})
 		if err != nil {
@@ -92,7 +98,7 @@ func init() {
 	deleteAclsCmd.Flags().String("patterntype", "match", "patterntype: any|match|literal|prefixed")
 	deleteAclsCmd.Flags().String("principal", "", "principal")
 	deleteAclsCmd.Flags().String("host", "", "host")
-	deleteAclsCmd.Flags().String("operation", "any", "operation: any|read|write|create|delete|alter|describe|clusteraction|describeconfigs|alterconfigs|idempotentwrite")
+	deleteAclsCmd.Flags().String("operation", "any", "operation: any|all|read|write|create|delete|alter|describe|cluster_action|describe_configs|alter_configs|idempotent_write")
 	deleteAclsCmd.Flags().String("permissiontype", "any", "permissiontype: any|allow|deny")
 
 	rootCmd.AddCommand(deleteAclsCmd)
diff --git a/command/healer/cmd/describe-acls.go b/command/healer/cmd/describe-acls.go
index 1a9113b..8cdb639 100644
--- a/command/healer/cmd/describe-acls.go
+++ b/command/healer/cmd/describe-acls.go
@@ -32,17 +32,19 @@ var describeAclsCmd = &cobra.Command{
 
 		// 处理所有标志
 		resourcetype, _ := cmd.Flags().GetString("resourcetype")
-		json.Unmarshal([]byte(`"`+resourcetype+`"`), &req.ResourceType)
+		if err = req.ResourceType.UnmarshalText([]byte(resourcetype)); err != nil {
+			return err
+		}
 
 		if cmd.Flags().Changed("resource") {
 			resource, _ := cmd.Flags().GetString("resource")
-			json.Unmarshal([]byte(`"`+resource+`"`), &req.ResourceName)
+			req.ResourceName = &resource
 		}
 
 		if resourcepatterntype, err := cmd.Flags().GetString("patterntype"); err != nil {
 			return err
-		} else {
-			json.Unmarshal([]byte(`"`+resourcepatterntype+`"`), &req.PatternType)
+		} else if err = req.PatternType.UnmarshalText([]byte(resourcepatterntype)); err != nil {
+			return err
 		}
 
 		if !cmd.Flags().Changed("principal") {
@@ -66,10 +68,14 @@ var describeAclsCmd = &cobra.Command{
 		}
 
 		operation, _ := cmd.Flags().GetString("operation")
-		json.Unmarshal([]byte(`"`+operation+`"`), &req.Operation)
+		if err = req.Operation.UnmarshalText([]byte(operation)); err != nil {
+			return err
+		}
 
 		permissiontype, _ := cmd.Flags().GetString("permissiontype")
-		json.Unmarshal([]byte(`"`+permissiontype+`"`), &req.PermissionType)
+		if err = req.PermissionType.UnmarshalText([]byte(permissiontype)); err != nil {
+			return err
+		}
 
 		responses, err := admin.DescribeAcls(req)
 		if err != nil {
@@ -92,7 +98,7 @@ func init() {
 	describeAclsCmd.Flags().String("patterntype", "match", "patterntype: any|match|literal|prefixed")
 	describeAclsCmd.Flags().String("principal", "", "principal")
 	describeAclsCmd.Flags().String("host", "", "host")
-	describeAclsCmd.Flags().String("operation", "any", "operation: any|read|write|create|delete|alter|describe|clusteraction|describeconfigs|alterconfigs|idempotentwrite")
+	describeAclsCmd.Flags().String("operation", "any", "operation: any|all|read|write|create|delete|alter|describe|cluster_action|describe_configs|alter_configs|idempotent_write")
 	describeAclsCmd.Flags().String("permissiontype", "any", "permissiontype: any|allow|deny")
 
 	rootCmd.AddCommand(describeAclsCmd)
-- 
2.43.0


From 446b96462ad916d2a42a1bb50a6e8b8fe9d8b9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 84/91] fix: create-topic and create-partitions refuse broker
 ids which are too large, and empty assignments do not panic

---
 command/healer/cmd/create-partitions.go | 9 +++++----
 command/healer/cmd/create-topic.go      | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/command/healer/cmd/create-partitions.go b/command/healer/cmd/create-partitions.go
index e2ac44f..0321c3f 100644
--- a/command/healer/cmd/create-partitions.go
+++ b/command/healer/cmd/create-partitions.go
@@ -10,18 +10,19 @@ import (
 )
 
 func genPartitionAssignments(assignments string) (partitionAssignments [][]int32, err error) {
-	for i, brokerIDs := range strings.Split(assignments, ",") {
+	for _, brokerIDs := range strings.Split(assignments, ",") {
 		if brokerIDs == "" {
 			continue
 		}
-		partitionAssignments = append(partitionAssignments, []int32{})
+		replicas := []int32{}
 		for _, brokerID := range strings.Split(brokerIDs, ":") {
-			if _brokerID, err := strconv.Atoi(brokerID); err == nil {
-				partitionAssignments[i] = append(partitionAssignments[i], int32(_brokerID))
+			if _brokerID, err := strconv.ParseInt(brokerID, 10, 32); err == nil {
+				replicas = append(replicas, int32(_brokerID))
 			} else {
 				return nil, fmt.Errorf("failed to convert %s to int: %w", brokerID, err)
 			}
 		}
+		partitionAssignments = append(partitionAssignments, replicas)
 	}
 	return
 }
diff --git a/command/healer/cmd/create-topic.go b/command/healer/cmd/create-topic.go
index df8bc36..fe26e45 100644
--- a/command/healer/cmd/create-topic.go
+++ b/command/healer/cmd/create-topic.go
@@ -94,7 +94,7 @@ var createTopicCmd = &cobra.Command{
 		for pid, nodes := range strings.Split(replicaAssignment, ",") {
 			replicas[int32(pid)] = make([]int32, 0)
 			for _, node := range strings.Split(nodes, ":") {
-				nodeid, err := strconv.Atoi(node)
+				nodeid, err := strconv.ParseInt(node, 10, 32)
 				if err != nil {
 					return fmt.Errorf("invalid replica-assignment: %w", err)
 				}
-- 
2.43.0


From e82bea0c6473c6e8729d782262559d0bee708c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:41 +0000
Subject: [PATCH 85/91] fix: alter-configs asks the broker whose configs are
 altered

---
 command/healer/cmd/alter-configs.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/command/healer/cmd/alter-configs.go b/command/healer/cmd/alter-configs.go
index f2b4a56..1d13e81 100644
--- a/command/healer/cmd/alter-configs.go
+++ b/command/healer/cmd/alter-configs.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"encoding/json"
 	"fmt"
+	"strconv"
 
 	"github.com/childe/healer"
 	"github.com/spf13/cobra"
@@ -44,16 +45,25 @@ var alterConfigsCmd = &cobra.Command{
 			return fmt.Errorf("failed to create brokers from %s", brokers)
 		}
 
-		controller, err := bs.GetBroker(bs.Controller())
+		// a broker alters its own configs
+		serverID := bs.Controller()
+		if resourceType == "broker" || resourceType == "broker_logger" {
+			brokerID, err := strconv.ParseInt(resourceName, 10, 32)
+			if err != nil {
+				return fmt.Errorf("broker id must be a number: %w", err)
+			}
+			serverID = int32(brokerID)
+		}
+		server, err := bs.GetBroker(serverID)
 		if err != nil {
-			return fmt.Errorf("failed to create crotroller broker: %w", err)
+			return fmt.Errorf("failed to create broker %d: %w", serverID, err)
 		}
-		klog.V(5).Infof("controller: %s", controller.GetAddress())
+		klog.V(5).Infof("server: %s", server.GetAddress())
 
 		r := healer.NewIncrementalAlterConfigsRequest(client)
 		r.AddConfig(healer.ConvertConfigResourceType(resourceType), resourceName, configName, configValue)
 
-		resp, err := controller.RequestAndGet(r)
+		resp, err := server.RequestAndGet(r)
 		if err != nil {
 			return fmt.Errorf("faild to alter configs: %w", err)
 		}
-- 
2.43.0


From 8baf55c30926bfa770601accc6961ae1cff737af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:37 +0000
Subject: [PATCH 86/91] fix: reset-offset fails if a partition it is given does
 not exist

---
 command/healer/cmd/reset-offset.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/command/healer/cmd/reset-offset.go b/command/healer/cmd/reset-offset.go
index a1f1269..41227ab 100644
--- a/command/healer/cmd/reset-offset.go
+++ b/command/healer/cmd/reset-offset.go
@@ -58,6 +58,12 @@ var resetOffsetCmd = &cobra.Command{
 			}
 		}
 
+		for partition := range userCustomPartitions {
+			if _, ok := offsets[partition]; !ok {
+				return fmt.Errorf("no offset of partition %d of %s", partition, topic)
+			}
+		}
+
 		// 1. get coordinator
 		var coordinator *healer.Broker
 		coordinatorResponse, err := brokers.FindCoordinator(client, group)
-- 
2.43.0


From 327978745422c45929ad1118df03fdfbcfb7489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:37 +0000
Subject: [PATCH 87/91] fix: get-pending takes every character of the group but
 * literally

---
 command/healer/cmd/get-pending.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/healer/cmd/get-pending.go b/command/healer/cmd/get-pending.go
index d3b1093..627c04c 100644
--- a/command/healer/cmd/get-pending.go
+++ b/command/healer/cmd/get-pending.go
@@ -158,8 +158,8 @@ func getGroups(groupID string) []string {
 		return []string{groupID}
 	}
 
-	var p string = strings.Replace(groupID, ".", `\.`, -1)
-	p = strings.Replace(p, "*", ".*", -1)
+	// only * is special
+	p := strings.Replace(regexp.QuoteMeta(groupID), `\*`, ".*", -1)
 	var groupPattern *regexp.Regexp = regexp.MustCompile("^" + p + "$")
 
 	var (
-- 
2.43.0


From cf36536ef0ec9a3eb3ed5fdf57c6b1489d38eba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 88/91] fix: answer GET pending with an error when the end
 offsets are unknown

GetPending went on without them and answered 200 with offset 0 and a
negative lag.
---
 command/healer/cmd/apicontrollers/group.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 5023fd3..0c55f81 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -170,6 +170,8 @@ func GetPending(c *gin.Context, client string) {
 	offsets, err := getOffset(bs, topicName, client)
 	if err != nil {
 		klog.Errorf("get offsets error: %s", err)
+		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	partitions, err := getPartitions(bs, topicName, client)
-- 
2.43.0


From d215e00b7b17ff2f1a83df2127861982566fe85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:39 +0000
Subject: [PATCH 89/91] fix: API handlers close their connections

ListGroups, DescribeGroups and DescribeLogdirs left the connections to the
brokers open after every request.
---
 command/healer/cmd/apicontrollers/describe-logdirs.go | 2 ++
 command/healer/cmd/apicontrollers/group.go            | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index feb0b1e..d52fd51 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -24,7 +24,9 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
+	defer admin.Close()
 
 	clientReq := struct {
 		Topics []string `json:"topics"`
diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 0c55f81..7248cac 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -26,6 +26,8 @@ func ListGroups(c *gin.Context, clientID string) {
 		return
 	}
 
+	defer client.Close()
+
 	groups, err := client.ListGroups()
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
@@ -52,7 +54,9 @@ func DescribeGroups(c *gin.Context, client string) {
 	brokers, err := healer.NewBrokers(bootstrapServers)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
+	defer brokers.Close()
 
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
-- 
2.43.0


From b702da51174cb8bf94ef13ca1b85b1b520c32301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:39 +0000
Subject: [PATCH 90/91] fix: list-partition-reassignments without a body
 answers 200

BindJSON had already set the status to 400 when the body was empty, which
asks for the reassignments of all partitions.
---
 command/healer/cmd/apicontrollers/partition-reassignments.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index 5a911be..afad847 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -51,7 +51,7 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	defer admin.Close()
 
 	reassignments := make([]reassignment, 0)
-	if err := c.BindJSON(&reassignments); err != nil {
+	if err := c.ShouldBindJSON(&reassignments); err != nil {
 		if err != io.EOF {
 			c.String(http.StatusBadRequest, fmt.Sprintf("reassignments value error: %s", err))
 			return
-- 
2.43.0


From 44ee526af80875306c4b84d38e86caa69bc9b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:41 +0000
Subject: [PATCH 91/91] fix: API handlers do not go on after an error

They answered with the error and then used the nil they were returned with it.
---
 command/healer/cmd/apicontrollers/describe-logdirs.go        | 1 +
 command/healer/cmd/apicontrollers/group.go                   | 4 ++++
 command/healer/cmd/apicontrollers/partition-reassignments.go | 1 +
 command/healer/cmd/apicontrollers/topic.go                   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/command/healer/cmd/apicontrollers/describe-logdirs.go b/command/healer/cmd/apicontrollers/describe-logdirs.go
index d52fd51..8bf4977 100644
--- a/command/healer/cmd/apicontrollers/describe-logdirs.go
+++ b/command/healer/cmd/apicontrollers/describe-logdirs.go
@@ -39,6 +39,7 @@ func DescribeLogdirs(c *gin.Context, client string) {
 	responses, err := admin.DescribeLogDirs(clientReq.Topics)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	c.JSON(http.StatusOK, responses)
diff --git a/command/healer/cmd/apicontrollers/group.go b/command/healer/cmd/apicontrollers/group.go
index 7248cac..5518606 100644
--- a/command/healer/cmd/apicontrollers/group.go
+++ b/command/healer/cmd/apicontrollers/group.go
@@ -61,11 +61,13 @@ func DescribeGroups(c *gin.Context, client string) {
 	coordinatorResponse, err := brokers.FindCoordinator(client, group)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	coordinator, err := brokers.GetBroker(coordinatorResponse.Coordinator.NodeID)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	klog.Infof("coordinator for group[%s]:%s", group, coordinator.GetAddress())
@@ -74,6 +76,7 @@ func DescribeGroups(c *gin.Context, client string) {
 	resp, err := coordinator.RequestAndGet(req)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 
 	groups := resp.(healer.DescribeGroupsResponse).Groups
@@ -168,6 +171,7 @@ func GetPending(c *gin.Context, client string) {
 
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer bs.Close()
 
diff --git a/command/healer/cmd/apicontrollers/partition-reassignments.go b/command/healer/cmd/apicontrollers/partition-reassignments.go
index afad847..5fab277 100644
--- a/command/healer/cmd/apicontrollers/partition-reassignments.go
+++ b/command/healer/cmd/apicontrollers/partition-reassignments.go
@@ -47,6 +47,7 @@ func ListPartitionReassignments(c *gin.Context, client string) {
 	admin, err := healer.NewClient(bootstrapServers, client)
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	defer admin.Close()
 
diff --git a/command/healer/cmd/apicontrollers/topic.go b/command/healer/cmd/apicontrollers/topic.go
index 27cfd8f..729d779 100644
--- a/command/healer/cmd/apicontrollers/topic.go
+++ b/command/healer/cmd/apicontrollers/topic.go
@@ -45,6 +45,7 @@ func GetTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
@@ -85,6 +86,7 @@ func AlterTopicConfig(c *gin.Context, client string) {
 	controller, err := bs.GetBroker(bs.Controller())
 	if err != nil {
 		c.String(http.StatusInternalServerError, err.Error())
+		return
 	}
 	resp, err := controller.RequestAndGet(r)
 	if err != nil {
-- 
2.43.0

