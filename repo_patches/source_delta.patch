From 9b3871d3dcdd46e3d4cceb8a0f9a9488b6b23836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 01/38] fix: reject received message with topic length
 exceeding the message size

The topic length was never compared to the size of the message, and the
topic was validated (read) outside the message when it was too large.
---
 src/lib/messages/msg_msg.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/messages/msg_msg.c b/src/lib/messages/msg_msg.c
index 4d7e821..ab49123 100644
--- a/src/lib/messages/msg_msg.c
+++ b/src/lib/messages/msg_msg.c
@@ -260,6 +260,12 @@ static int __message_validate (const struct rrr_msg_msg *message){
 		ret = 1;
 		goto out;
 	}
+	if (MSG_TOPIC_LENGTH(message) > MSG_TOTAL_SIZE(message) - MSG_MIN_SIZE(message)) {
+		RRR_DBG_1("Received a message in message_validate with topic length %u exceeding message size %" PRIu32 "\n",
+				MSG_TOPIC_LENGTH(message), MSG_TOTAL_SIZE(message));
+		ret = 1;
+		goto out;
+	}
 	if (!MSG_CLASS_OK(message)) {
 		RRR_DBG_1("Invalid class %u in message to message_validate\n", MSG_CLASS(message));
 		ret = 1;
-- 
2.43.0


From f117821fdc64a69a2da65e91fe52d9b03ace2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 02/38] fix: reject received message with size field smaller
 than the header

A size of zero or less than the header caused RRR_BUG assertions to fail
in the read framework and in the checksum verification.
---
 src/lib/messages/msg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/messages/msg.c b/src/lib/messages/msg.c
index 0abf4e2..6e67bc1 100644
--- a/src/lib/messages/msg.c
+++ b/src/lib/messages/msg.c
@@ -143,6 +143,11 @@ int rrr_msg_get_target_size_and_check_checksum (
 
 	*target_size = rrr_be32toh(msg->msg_size);
 
+	if (*target_size < sizeof(*msg)) {
+		RRR_MSG_0("Message size field too small in %s (%" PRIrrrl ")\n", __func__, *target_size);
+		return RRR_MSG_READ_SOFT_ERROR;
+	}
+
 	return RRR_MSG_READ_OK;
 }
 
-- 
2.43.0


From 169d7651d5c5337e94bf592da4cfaa0e6d20021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 03/38] fix: check size of path and data in received statistics
 message

---
 src/lib/stats/stats_message.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib/stats/stats_message.c b/src/lib/stats/stats_message.c
index fb75af0..d7ca6a6 100644
--- a/src/lib/stats/stats_message.c
+++ b/src/lib/stats/stats_message.c
@@ -93,6 +93,18 @@ static int __rrr_msg_stats_unpack (
 		goto out;
 	}
 
+	if (path_size > sizeof(target->path)) {
+		RRR_MSG_0("Path size in received statistics packet exceeds maximum\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
+	if (actual_path_and_data_size - path_size > sizeof(target->data)) {
+		RRR_MSG_0("Data size in received statistics packet exceeds maximum\n");
+		ret = RRR_READ_SOFT_ERROR;
+		goto out;
+	}
+
 	memset (target, '\0', sizeof(*target));
 
 	target->flags = flags;
-- 
2.43.0


From c10d6ee768d2b09dbc5e9fe9fd0f9f6659239169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:57 +0000
Subject: [PATCH 04/38] fix: check size of received log message against the
 size of its header

The fields of the log message were read without checking that they had been
received, and the check of the prefix size subtracted one byte in the wrong
direction and wrapped around for messages shorter than the header.
---
 src/lib/messages/msg_log.c | 5 +++++
 src/lib/messages/msg_log.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/messages/msg_log.c b/src/lib/messages/msg_log.c
index 9ade221..fac5bb7 100644
--- a/src/lib/messages/msg_log.c
+++ b/src/lib/messages/msg_log.c
@@ -36,6 +36,11 @@ void rrr_msg_msg_log_prepare_for_network (struct rrr_msg_log *msg) {
 }
 
 int rrr_msg_msg_log_to_host (struct rrr_msg_log *msg) {
+	if (msg->msg_size < sizeof(*msg)) {
+		RRR_MSG_0("Message too short in rrr_msg_msg_log_to_host\n");
+		return 1;
+	}
+
 	msg->prefix_size = rrr_be16toh(msg->prefix_size);
 	msg->line = rrr_be32toh(msg->line);
 
diff --git a/src/lib/messages/msg_log.h b/src/lib/messages/msg_log.h
index b2733ee..ba92bc5 100644
--- a/src/lib/messages/msg_log.h
+++ b/src/lib/messages/msg_log.h
@@ -35,7 +35,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 	((msg->prefix_and_message) + (msg)->prefix_size)
 
 #define RRR_MSG_LOG_SIZE_OK(msg)											\
-	((msg)->prefix_size > (msg)->msg_size - sizeof(*(msg)) - 1 ? 0 : 1)
+	((msg)->msg_size >= sizeof(*(msg)) && (msg)->prefix_size <= (msg)->msg_size - (sizeof(*(msg)) - 1))
 
 #define RRR_MSG_LOG_LEVEL_ORIG_NOT_GIVEN RRR_LOG_LEVEL_NOT_GIVEN
 
-- 
2.43.0


From 89fd581269e83bbb736760e18d1b80873a486652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:38 +0000
Subject: [PATCH 05/38] fix: check element count of received array values
 against their length

---
 src/lib/type.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/lib/type.c b/src/lib/type.c
index 11a58fc..a89106c 100644
--- a/src/lib/type.c
+++ b/src/lib/type.c
@@ -1546,6 +1546,32 @@ int rrr_type_value_new (
 	return ret;
 }
 
+static int __rrr_type_value_check_unpacked (
+		const struct rrr_type_value *value
+) {
+	const rrr_type type = value->definition->type;
+
+	// All elements of a value have the same size
+	if (value->total_stored_length == 0) {
+		return RRR_TYPE_IS_STR_EXCACT(type) || RRR_TYPE_IS_VAIN(type) ? 0 : 1;
+	}
+
+	if (RRR_TYPE_IS_MSG(type)) {
+		// Element count is set when unpacking
+		return 0;
+	}
+
+	if (value->element_count == 0 || value->total_stored_length % value->element_count != 0) {
+		return 1;
+	}
+
+	if (RRR_TYPE_IS_64(type) || RRR_TYPE_IS_FIXP(type)) {
+		return value->total_stored_length / value->element_count != sizeof(uint64_t);
+	}
+
+	return 0;
+}
+
 int rrr_type_value_new_and_unpack (
 		struct rrr_type_value **result,
 		const struct rrr_type_definition *type,
@@ -1590,6 +1616,12 @@ int rrr_type_value_new_and_unpack (
 		goto out_free;
 	}
 
+	if ((ret = __rrr_type_value_check_unpacked(value)) != 0) {
+		RRR_MSG_0("Element count %" PRIrrrl " and length %" PRIrrrl " of unpacked type %s do not match in %s\n",
+				value->element_count, value->total_stored_length, type->identifier, __func__);
+		goto out_free;
+	}
+
 	*result = value;
 
 	goto out;
-- 
2.43.0


From 842928de0fafe8ddb767638d331ddbff535386a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:13 +0000
Subject: [PATCH 06/38] fix: don't read beyond end of topic when matching
 wildcard in linear topic matcher

---
 src/lib/mqtt/mqtt_topic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_topic.c b/src/lib/mqtt/mqtt_topic.c
index 0eb0c94..25f7df7 100644
--- a/src/lib/mqtt/mqtt_topic.c
+++ b/src/lib/mqtt/mqtt_topic.c
@@ -191,7 +191,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 
@@ -202,7 +202,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 			for (; topic_pos < topic_end; topic_pos++) {
-- 
2.43.0


From 0ccb59555d65524fab21ca16172c60af9f74fbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 07/38] fix: don't lose entries in FIFO when an entry is
 deleted after another was replaced in the same search

---
 src/lib/fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/fifo.c b/src/lib/fifo.c
index af9227b..d6212bd 100644
--- a/src/lib/fifo.c
+++ b/src/lib/fifo.c
@@ -545,6 +545,8 @@ int rrr_fifo_search_and_replace (
 
 				__rrr_fifo_entry_destroy(buffer, entry);
 				rrr_length_dec_bug (&buffer->entry_count);
+
+				entry = prev;
 			}
 			else {
 				if (entry->data == data) {
@@ -565,7 +567,6 @@ int rrr_fifo_search_and_replace (
 				rrr_length_dec_bug (&buffer->entry_count);
 			}
 
-			entry = prev;
 			did_something = 1;
 		}
 		if ((actions & RRR_FIFO_SEARCH_STOP) != 0) {
-- 
2.43.0


From 7b3ae45c232c910770cd88e2699a90722a63e3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 08/38] fix: accept No Local and Retain As Published options in
 MQTT subscriptions

---
 src/lib/mqtt/mqtt_assemble.c     | 2 +-
 src/lib/mqtt/mqtt_subscription.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index 3206194..82a0494 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -378,7 +378,7 @@ int __rrr_mqtt_assemble_sub_usub_callback (struct rrr_mqtt_subscription *sub, vo
 	struct assemble_sub_usub_callback_data *callback_data = arg;
 	struct rrr_mqtt_payload_buf_session *session = callback_data->session;
 
-	if (sub->nl > 0 || sub->rap > 0 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
+	if (sub->nl > 1 || sub->rap > 1 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
 		RRR_BUG("Invalid flags/QoS in %s\n", __func__);
 	}
 
diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 10fc0bf..0409c92 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -60,7 +60,7 @@ int rrr_mqtt_subscription_new (
 
 	*target = NULL;
 
-	if (nl > 0 || rap > 0 || retain_handling > 2) {
+	if (nl > 1 || rap > 1 || retain_handling > 2) {
 		RRR_BUG("Invalid flags in %s\n", __func__);
 	}
 
-- 
2.43.0


From e914c69c488f7f7cd03b8ae5e446419decf9cc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 09/38] fix: don't count length of MQTT binary property data
 twice

---
 src/lib/mqtt/mqtt_parse.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 18577aa..18a2833 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -679,8 +679,7 @@ static int __rrr_mqtt_parse_property_blob (RRR_PROPERTY_PARSER_DEFINITION) {
 	target->length_orig = blob_length;
 	target->internal_data_type = RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB;
 
-	bytes_parsed += blob_length;
-
+	// Includes both the length field and the data
 	*bytes_parsed_final = bytes_parsed;
 
 	return ret;
-- 
2.43.0


From 205fb407d5b650883931842dbd3cb7fd8191280c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 10/38] fix: handle empty strings and binary data in MQTT
 packets

---
 src/lib/mqtt/mqtt_assemble.c    |  4 ++--
 src/lib/mqtt/mqtt_payload_buf.c |  4 ----
 src/lib/mqtt/mqtt_property.c    | 19 ++++++++-----------
 3 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index 82a0494..acf9666 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -134,8 +134,8 @@ static int __rrr_mqtt_assemble_put_properties_callback (
 
 	int ret = RRR_MQTT_ASSEMBLE_OK;
 
-	if (property->data == NULL || property->length == 0) {
-		RRR_BUG("Property data and/or length was 0 in %s\n", __func__);
+	if (property->data == NULL) {
+		RRR_BUG("Property data was NULL in %s\n", __func__);
 	}
 
 	PUT_U8(property->definition->identifier);
diff --git a/src/lib/mqtt/mqtt_payload_buf.c b/src/lib/mqtt/mqtt_payload_buf.c
index 4a03070..8575876 100644
--- a/src/lib/mqtt/mqtt_payload_buf.c
+++ b/src/lib/mqtt/mqtt_payload_buf.c
@@ -63,10 +63,6 @@ void rrr_mqtt_payload_buf_dump (struct rrr_mqtt_payload_buf_session *session) {
 }
 
 int rrr_mqtt_payload_buf_ensure (struct rrr_mqtt_payload_buf_session *session, rrr_length size) {
-	if (size <= 0) {
-		RRR_BUG("size was <= 0 in %s\n", __func__);
-	}
-
 	if (session->wpos + size <= session->buf + session->buf_size) {
 		return RRR_MQTT_PAYLOAD_BUF_OK;
 	}
diff --git a/src/lib/mqtt/mqtt_property.c b/src/lib/mqtt/mqtt_property.c
index 0828938..a2fa60f 100644
--- a/src/lib/mqtt/mqtt_property.c
+++ b/src/lib/mqtt/mqtt_property.c
@@ -139,17 +139,15 @@ int rrr_mqtt_property_clone (
 	RRR_LL_NODE_INIT(result);
 	result->sibling = NULL;
 
-	if (result->length <= 0) {
-		RRR_BUG("Length was <= 0 in %s\n", __func__);
-	}
-
-	if ((result->data = rrr_allocate(result->length)) == NULL) {
+	// Strings and blobs may be empty, always make space for zero termination
+	if ((result->data = rrr_allocate((rrr_biglength) result->length + 1)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
 		ret = 1;
 		goto out_free;
 	}
 
 	memcpy(result->data, source->data, result->length);
+	result->data[result->length] = '\0';
 	result->order = 0;
 
 	if (source->sibling != NULL) {
@@ -177,7 +175,7 @@ int rrr_mqtt_property_save_blob (
 		int add_zero_if_needed
 ) {
 	uint32_t size_padded = size;
-	if (add_zero_if_needed != 0 && value[size - 1] != '\0') {
+	if (size == 0 || (add_zero_if_needed != 0 && value[size - 1] != '\0')) {
 		size_padded++;
 	}
 
@@ -233,9 +231,6 @@ const char *rrr_mqtt_property_get_blob (
 	if (property->internal_data_type != RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB) {
 		RRR_BUG("Property was not BLOB in %s\n", __func__);
 	}
-	if (property->length < 1) {
-		RRR_BUG("Length of property was <1 in %s\n", __func__);
-	}
 	*length = property->length;
 	return property->data;
 }
@@ -295,14 +290,16 @@ static int __rrr_mqtt_property_clone (
 	result->order = source->order;
 	result->internal_data_type = source->internal_data_type;
 
-	if (source->length > 0) {
+	if (source->data != NULL) {
+		// Strings and blobs may be empty, always make space for zero termination
 		result->length = source->length;
-		if ((result->data = rrr_allocate(result->length)) == NULL) {
+		if ((result->data = rrr_allocate((rrr_biglength) result->length + 1)) == NULL) {
 			RRR_MSG_0("Could not allocate memory for data in %s\n", __func__);
 			ret = 1;
 			goto out_destroy;
 		}
 		memcpy(result->data, source->data, result->length);
+		result->data[result->length] = '\0';
 	}
 
 	*target = result;
-- 
2.43.0


From 8e1762351375bae71885a759456b7e41cf5983b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 11/38] fix: accept MQTT v5 acknowledgement with reason and
 without property length

---
 src/lib/mqtt/mqtt_parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 18a2833..efe940c 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1061,6 +1061,9 @@ int rrr_mqtt_parse_def_puback (struct rrr_mqtt_parse_session *session) {
 			RRR_BUG("Unknown packet type %u in %s\n", RRR_MQTT_P_GET_TYPE(def_puback), __func__);
 		}
 
+		// Property length may be omitted if there are no properties
+		PARSE_CHECK_NO_MORE_DATA();
+
 		PARSE_PROPERTIES_IF_V5(def_puback,properties);
 	}
 
-- 
2.43.0


From 0075360aa6bc902d01b95c300e5555344c246e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 12/38] fix: don't leak MQTT property upon parse error

---
 src/lib/mqtt/mqtt_parse.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index efe940c..b24029c 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -794,7 +794,7 @@ static int __rrr_mqtt_parse_properties (
 		start = end;
 		ret = property_parsers[property_def->internal_data_type](property_tmp, session, start, &bytes_parsed);
 		if (ret != 0) {
-			return ret;
+			goto out;
 		}
 		end = start + bytes_parsed;
 
-- 
2.43.0


From 79c110335a1dc004e2444d014a7167fc6043b2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 13/38] fix: reject MQTT packets with fields exceeding the end
 of the packet

---
 src/lib/mqtt/mqtt_parse.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index b24029c..7c54708 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -304,6 +304,11 @@ static int __rrr_mqtt_parse_save_and_check_reason (struct rrr_mqtt_p *packet, ui
         RRR_MSG_0("Data after payload in mqtt packet type %s\n", \
                 session->type_properties->name);               \
         return RRR_MQTT_SOFT_ERROR;                            \
+    }                                                          \
+    if (parse_state->end > session->buf + session->target_size) {\
+        RRR_MSG_0("Payload exceeds end of mqtt packet type %s\n", \
+                session->type_properties->name);               \
+        return RRR_MQTT_SOFT_ERROR;                            \
     }} while(0)                                                \
 
 #define PARSE_CHECK_ZERO_PAYLOAD()                             \
@@ -802,6 +807,12 @@ static int __rrr_mqtt_parse_properties (
 		property_tmp = NULL;
 	}
 
+	if (end != properties_body_end) {
+		RRR_MSG_0("Last property exceeds the specified property length in mqtt packet\n");
+		ret = RRR_MQTT_SOFT_ERROR;
+		goto out;
+	}
+
 	*bytes_parsed_final = rrr_biglength_from_ptr_sub_bug_const (end, properties_length_start);
 
 	out:
-- 
2.43.0


From 6dea265e670ddef3bec0f6edfb0664c456f2e152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:35 +0000
Subject: [PATCH 14/38] fix: check result of allocation of MQTT topic filter

---
 src/lib/mqtt/mqtt_subscription.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 0409c92..ba88643 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -85,7 +85,7 @@ int rrr_mqtt_subscription_new (
 
 	else {
 		sub->topic_filter = rrr_allocate(strlen(topic_filter) + 1);
-		if (sub == NULL) {
+		if (sub->topic_filter == NULL) {
 			RRR_MSG_0("Could not allocate memory for topic filter in %s\n", __func__);
 			ret = 1;
 			goto out_free_subscription;
-- 
2.43.0


From c9ef7c9b5400399fad921aa7c66185fc1a216d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 15/38] fix: UTF-8 validation must not stop at an embedded zero
 character

---
 src/lib/util/utf8.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/util/utf8.c b/src/lib/util/utf8.c
index 450aa70..b060613 100644
--- a/src/lib/util/utf8.c
+++ b/src/lib/util/utf8.c
@@ -109,9 +109,9 @@ int rrr_utf8_validate (const char *buf, rrr_length len) {
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
+	while (pos < end && ret == 0) {
 		ret = rrr_utf8_get_character (&result, &pos, end);
-	} while (ret == 0 && !(ret == 0 && result == 0));
+	}
 
 	return ret;
 }
@@ -128,15 +128,14 @@ int rrr_utf8_validate_and_iterate (
 	const char *end = buf + len;
 
 	uint32_t result = 0;
-	do {
-		ret = rrr_utf8_get_character (&result, &pos, end);
-		if (ret != 0 || (ret == 0 && result == 0)) {
+	while (pos < end) {
+		if ((ret = rrr_utf8_get_character (&result, &pos, end)) != 0) {
 			return ret;
 		}
 		if ((ret = callback(result, callback_arg)) != 0) {
 			return ret;
 		}
-	} while (ret == 0);
+	}
 
 	return ret;
 }
-- 
2.43.0


From 2a7681d3dde6f541ab402d00d31e595db6af1d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 16/38] fix: Websocket payload length close to the 64 bit
 maximum wrapped the frame length

---
 src/lib/websocket/websocket.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 3a99193..7a365e2 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -358,15 +358,16 @@ int __rrr_websocket_get_target_size (
 		header_new.masking_key = rrr_be32toh(*((uint32_t *) pos));
 	}
 
-	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
-
-	if (target_len > (rrr_biglength) SSIZE_MAX) {
-		RRR_MSG_0("Total specified length og websocket frame was too big (%" PRIrrrbl ">%lli)\n",
-				target_len, (long long int) SSIZE_MAX);
+	// Check prior to addition, the specified length may be anything up to the 64 bit maximum
+	if (header_new.payload_len > (rrr_biglength) SSIZE_MAX - header_new.header_len) {
+		RRR_MSG_0("Specified payload length of websocket frame was too big (%" PRIrrrbl ">%lli)\n",
+				header_new.payload_len, (long long int) SSIZE_MAX - header_new.header_len);
 		ret = RRR_READ_SOFT_ERROR;
 		goto out;
 	}
 
+	rrr_biglength target_len = header_new.header_len + header_new.payload_len;
+
 	callback_data->ws_state->last_receive_time = rrr_time_get_64();
 	callback_data->ws_state->receive_state.header = header_new;
 	read_session->target_size = target_len;
-- 
2.43.0


From 93a5392ce6c0c721553ef50d6864b357bc47f12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 17/38] fix: Websocket control frames between fragments must
 leave the fragmented message alone

---
 src/lib/websocket/websocket.c | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 7a365e2..1b32811 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -279,6 +279,7 @@ struct rrr_websocket_callback_data {
 	struct rrr_websocket_state *ws_state;
 	int (*callback)(RRR_WEBSOCKET_FRAME_CALLBACK_ARGS);
 	void *callback_arg;
+	uint8_t opcode;
 };
 /*
       0                   1                   2                   3
@@ -379,6 +380,7 @@ int __rrr_websocket_get_target_size (
 
 int __rrr_websocket_receive_callback_final_step (
 		struct rrr_websocket_state *ws_state,
+		uint8_t opcode,
 		const struct rrr_nullsafe_str *payload,
 		int (*final_callback)(RRR_WEBSOCKET_FRAME_CALLBACK_ARGS),
 		void *final_callback_arg
@@ -386,11 +388,11 @@ int __rrr_websocket_receive_callback_final_step (
 	int ret = 0;
 
 	RRR_DBG_3("Websocket receive frame type %u size %" PRIrrr_nullsafe_len "\n",
-			ws_state->last_receive_opcode, rrr_nullsafe_str_len(payload));
+			opcode, rrr_nullsafe_str_len(payload));
 
 	// last_receive time is updated in get_target_size function
 
-	switch (ws_state->last_receive_opcode) {
+	switch (opcode) {
 		case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
 			ret = RRR_READ_EOF;
 			goto out;
@@ -407,7 +409,7 @@ int __rrr_websocket_receive_callback_final_step (
 			break;
 		default:
 			ret = final_callback (
-					ws_state->last_receive_opcode,
+					opcode,
 					payload,
 					final_callback_arg
 			);
@@ -425,6 +427,7 @@ static int __rrr_websocket_receive_callback_fragmentation_step_nullsafe_callback
 	struct rrr_websocket_callback_data *callback_data = arg;
 	return __rrr_websocket_receive_callback_final_step (
 			callback_data->ws_state,
+			callback_data->opcode,
 			payload,
 			callback_data->callback,
 			callback_data->callback_arg
@@ -447,6 +450,8 @@ static int __rrr_websocket_receive_callback_fragmentation_step (
 		goto out;
 	}
 
+	callback_data->opcode = ws_state->last_receive_opcode;
+
 	// Shortcut for single frames
 	if (ws_state->receive_state.fragment_buffer_nullsafe == NULL && fin) {
 		ret = rrr_nullsafe_str_with_tmp_str_do (
@@ -508,9 +513,6 @@ int __rrr_websocket_receive_callback_interpret_step (
 
 	// Zero opcode means CONTINUATION frame
 	if (opcode) {
-		// First non-fin frame has opcode, start new fragmented frame and reset header
-		rrr_websocket_state_clear_receive(ws_state);
-
 		switch (opcode) {
 			case RRR_WEBSOCKET_OPCODE_CONNECTION_CLOSE:
 			case RRR_WEBSOCKET_OPCODE_PING:
@@ -525,7 +527,17 @@ int __rrr_websocket_receive_callback_interpret_step (
 					ret = RRR_READ_SOFT_ERROR;
 					goto out;
 				}
-				break;
+
+				// Control frames may arrive between the fragments of a
+				// message, they must not disturb the fragmentation state
+				callback_data->opcode = opcode;
+				ret = rrr_nullsafe_str_with_tmp_str_do (
+						payload,
+						rrr_length_from_biglength_bug_const(payload_len),
+						__rrr_websocket_receive_callback_fragmentation_step_nullsafe_callback,
+						callback_data
+				);
+				goto out;
 			case RRR_WEBSOCKET_OPCODE_TEXT:
 			case RRR_WEBSOCKET_OPCODE_BINARY:
 				break;
@@ -535,11 +547,8 @@ int __rrr_websocket_receive_callback_interpret_step (
 				goto out;
 		};
 
-		if (!fin && opcode != RRR_WEBSOCKET_OPCODE_TEXT && opcode != RRR_WEBSOCKET_OPCODE_BINARY) {
-			RRR_MSG_0("Received fragmented websocket frame of type %i which is not allowed, only TEXT and BINARY may be fragmented\n", opcode);
-			ret = RRR_READ_SOFT_ERROR;
-			goto out;
-		}
+		// First non-fin frame has opcode, start new fragmented frame and reset header
+		rrr_websocket_state_clear_receive(ws_state);
 
 		ws_state->last_receive_opcode = opcode;
 	}
@@ -583,7 +592,8 @@ int rrr_websocket_transport_ctx_read_frames (
 	struct rrr_websocket_callback_data callback_data = {
 			ws_state,
 			callback,
-			callback_arg
+			callback_arg,
+			0
 	};
 
 	return rrr_net_transport_ctx_read_message (
-- 
2.43.0


From ea5a86e56a786e91f218609830bd8d341f381817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:35 +0000
Subject: [PATCH 18/38] fix: Reject Websocket continuation frames with nothing
 to continue

---
 src/lib/websocket/websocket.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/websocket/websocket.c b/src/lib/websocket/websocket.c
index 1b32811..3e7a5a3 100644
--- a/src/lib/websocket/websocket.c
+++ b/src/lib/websocket/websocket.c
@@ -487,6 +487,8 @@ static int __rrr_websocket_receive_callback_fragmentation_step (
 	goto out_no_clear;
 	out:
 		rrr_websocket_state_clear_receive(ws_state);
+		// Any fragment following must begin a new message
+		ws_state->last_receive_opcode = 0;
 	out_no_clear:
 		return ret;
 }
-- 
2.43.0


From 955740cf36b4ddf9bcc0b02346d92b4edd83a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 19/38] fix: store order of entries in protected FIFO

---
 src/lib/fifo_protected.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index f8c9c56..c09792c 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -422,6 +422,8 @@ static void __rrr_fifo_protected_write_update_pointers (
 ) {
 	struct rrr_fifo_protected_entry *pos = buffer->gptr_first;
 
+	entry->order = order;
+
 	if (pos == NULL) {
 		buffer->gptr_first = entry;
 		buffer->gptr_last = entry;
-- 
2.43.0


From 425e59073c43002f0608ebb6b13bf514ec41f111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:24 +0000
Subject: [PATCH 20/38] fix: don't touch entries of others when stopping at the
 last entry read in protected FIFO

---
 src/lib/fifo_protected.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index c09792c..d1eb229 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -589,8 +589,10 @@ int rrr_fifo_protected_read_clear_forward (
 					pthread_cleanup_push(__rrr_fifo_protected_unlock_void, buffer);
 					struct rrr_fifo_protected_entry *new_first = next;
 
-					if (next == NULL) {
-						// We are done anyway
+					if (next == stop) {
+						// All the entries we took are processed, there is nothing to put
+						// back. The stop element belongs to the buffer, and other users may
+						// have added entries before it or removed it.
 					}
 					else {
 						last_element->next = buffer->gptr_first;
-- 
2.43.0


From 72cb3b05dde58fbd98e0c5d84469dba11c6a3714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 21/38] fix: don't complete read until connection close when
 there is nothing to read for now

---
 src/lib/read.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/read.c b/src/lib/read.c
index 33d88bf..2bb9433 100644
--- a/src/lib/read.c
+++ b/src/lib/read.c
@@ -310,7 +310,7 @@ static int __rrr_read_message_using_callbacks (
 	if (bytes == 0 || ret_from_read != 0) {
 		// In situations where zero bytes are read, the downstream framework should
 		// return something else than OK. If not, we will always exit here.
-		if (read_session->read_complete_method == RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ) {
+		if (ret_from_read != 0 && read_session->read_complete_method == RRR_READ_COMPLETE_METHOD_ZERO_BYTES_READ) {
 			if (read_session->target_size > 0) {
 				RRR_BUG("Target size was set in %s while complete method was connection closed\n", __func__);
 			}
-- 
2.43.0


From aa58a343528dacddfb92570a747413a729155fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 22/38] fix: don't wrap 32 bits when incrementing

---
 src/lib/util/increment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/util/increment.c b/src/lib/util/increment.c
index 404d2c7..14ee661 100644
--- a/src/lib/util/increment.c
+++ b/src/lib/util/increment.c
@@ -158,7 +158,7 @@ uint32_t rrr_increment_basic (
 		uint32_t min,
 		uint32_t max
 ) {
-	uint64_t value_tmp = value + step;
+	uint64_t value_tmp = (uint64_t) value + step;
 	if (value_tmp > max || value_tmp < min) {
 		value_tmp = min;
 	}
-- 
2.43.0


From c0b6b495c7839044a2f755e2ee9a696d84388b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:13 +0000
Subject: [PATCH 23/38] fix: decode base64url text with last group not complete

---
 src/lib/util/base64.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/util/base64.c b/src/lib/util/base64.c
index 0759cb5..049f484 100644
--- a/src/lib/util/base64.c
+++ b/src/lib/util/base64.c
@@ -229,10 +229,11 @@ unsigned char *rrr_base64url_decode(const unsigned char *src, rrr_biglength len,
 			count++;
 	}
 
-	if (count == 0 || count % 4)
+	/* No padding is used, the last group may be of two or three characters */
+	if (count == 0 || count % 4 == 1)
 		return NULL;
 
-	olen = count / 4 * 3;
+	olen = count / 4 * 3 + 2;
 	pos = out = rrr_allocate(olen);
 	if (out == NULL)
 		return NULL;
@@ -253,6 +254,11 @@ unsigned char *rrr_base64url_decode(const unsigned char *src, rrr_biglength len,
 		}
 	}
 
+	if (count >= 2)
+		*pos++ = (unsigned char) ((block[0] << 2) | (block[1] >> 4));
+	if (count == 3)
+		*pos++ = (unsigned char) ((block[1] << 4) | (block[2] >> 2));
+
 	*out_len = (rrr_biglength) (pos - out);
 	return out;
 }
-- 
2.43.0


From 493495ba9abc6cd91b2be3808672a1d742a5012b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:24 +0000
Subject: [PATCH 24/38] fix: don't touch entry of message slot after it has
 been written

---
 src/lib/message_holder/message_holder_slot.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 62ac996..ff23c7e 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -491,11 +491,13 @@ int rrr_msg_holder_slot_write_from_collection (
 	int ret = 0;
 
 	while (RRR_LL_COUNT(collection) > 0) {
-		struct rrr_msg_holder *entry = RRR_LL_FIRST(collection);
+		// Remove from collection prior to writing, a reader may destroy
+		// the entry as soon as it has been written
+		struct rrr_msg_holder *entry = RRR_LL_SHIFT(collection);
 		if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+			RRR_LL_UNSHIFT(collection, entry);
 			goto out;
 		}
-		(void)RRR_LL_SHIFT(collection);
 	}
 
 	out:
-- 
2.43.0


From d758440aa07381513936a7219297dfe8d2e56590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 25/38] fix: free private data of transaction when modbus
 response is refused

---
 src/lib/modbus/rrr_modbus.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index 7a853c9..7b4a15c 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -425,14 +425,16 @@ static int __rrr_modbus_client_receive_16_write_multiple_registers (
     do {if (frame_size > sizeof(frame->mbap) + sizeof(frame->res.type) + sizeof(frame->res.function_code)) {  \
         RRR_MSG_0("Max frame size exceeded for received frame %" PRIrrrl ">%llu\n",                           \
 	    frame_size, (unsigned long long) (sizeof(frame->mbap) + sizeof(frame->res.type)));                \
-        return RRR_MODBUS_SOFT_ERROR;                                                                         \
+        ret = RRR_MODBUS_SOFT_ERROR;                                                                          \
+        goto out;                                                                                             \
     }} while(0)
 
 #define VALIDATE_TRANSACTION_FUNCTION_CODE(code)                                       \
     do {if (code != transaction.req.function_code) {                                   \
         RRR_MSG_0("Function code mismatch for received frame %d<>%d\n",                \
             frame->res.function_code - 0x80, transaction.req.function_code);           \
-        return RRR_MODBUS_SOFT_ERROR;                                                  \
+        ret = RRR_MODBUS_SOFT_ERROR;                                                   \
+        goto out;                                                                      \
     }} while(0)
 
 static int __rrr_modbus_client_receive (
-- 
2.43.0


From 9c59ae7f5f238d4f8ff3d24f431299b8ebb9a2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 26/38] fix: refuse modbus error response without exception
 code

---
 src/lib/modbus/rrr_modbus.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/modbus/rrr_modbus.c b/src/lib/modbus/rrr_modbus.c
index 7b4a15c..d1f1b46 100644
--- a/src/lib/modbus/rrr_modbus.c
+++ b/src/lib/modbus/rrr_modbus.c
@@ -459,6 +459,11 @@ static int __rrr_modbus_client_receive (
 
 	if (frame->res.function_code > 0x80) {
 		VALIDATE_FRAME_SIZE(error);
+		if (frame_size < sizeof(frame->mbap) + sizeof(frame->res.function_code) + sizeof(frame->res.error)) {
+			RRR_MSG_0("Exception code missing in received frame of size %" PRIrrrl "\n", frame_size);
+			ret = RRR_MODBUS_SOFT_ERROR;
+			goto out;
+		}
 		VALIDATE_TRANSACTION_FUNCTION_CODE(frame->res.function_code - 0x80);
 		if (client->callbacks.cb_res_error == NULL) {
 			RRR_BUG("Error callback not set in %s\n", __func__);
-- 
2.43.0


From 16705c0a82ec01e69dcc72e204a6e928c09659a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 27/38] fix: refuse percent sequence with only one hexadecimal
 digit

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 0904eca..c8e5ee0 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -270,7 +270,7 @@ static int __rrr_http_util_decode_urlencoded_string (
 			unsigned long long int result = 0;
 
 			rrr_length result_len = 0;
-			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0) {
+			if (rrr_http_util_strtoull_raw (&result, &result_len, (const char *) start + 1, (const char *) start + 3, 16) != 0 || result_len != 2) {
 				if (RRR_DEBUGLEVEL_3) {
 					RRR_MSG_3("Invalid %%-sequence in urlencoded string\n");
 					rrr_http_util_print_where_message((const char *) start, (const char *) end);
-- 
2.43.0


From 08cddbd5dc6032b4dcda73bb14194b87a096ca21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 28/38] fix: unescape backslash in quoted strings

---
 src/lib/http/http_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index c8e5ee0..278fc24 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -410,8 +410,8 @@ static int __rrr_http_util_unquote_string_callback (
 				if (*start == '\\') {
 					if (start + 1 < end) {
 						unsigned char next = *(start + 1);
-						if (next == endquote) {
-							// Write only the quote character
+						if (next == endquote || next == '\\') {
+							// Write only the quote character or backslash
 							start++;
 						}
 						else {
-- 
2.43.0


From a5f7d8c03f7ea388b7ca663ac8352d5c073fb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 29/38] fix: find all and only complete matches in strcasestr

---
 src/lib/http/http_util.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 278fc24..54187bc 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -738,7 +738,7 @@ int rrr_http_util_strcasestr (
 			needle_pos++;
 			len++;
 			if (revert_position == NULL) {
-				revert_position = pos + 1;
+				revert_position = pos;
 			}
 			if (result == NULL) {
 				result = pos;
@@ -758,6 +758,11 @@ int rrr_http_util_strcasestr (
 		}
 	}
 
+	if (needle_pos != needle_end) {
+		// End of text before end of needle
+		return 1;
+	}
+
 	*result_start = result;
 	*result_len = len;
 
-- 
2.43.0


From 1efebe0940e004e1c5a566fcc46758456e846907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 30/38] fix: copy endpoint when duplicating URI

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 54187bc..f2c0530 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -819,7 +819,7 @@ int rrr_http_util_uri_dup (
 		goto out_free;
 	}
 
-	if (uri_result->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
+	if (uri->endpoint != NULL && (uri_result->endpoint = rrr_strdup(uri->endpoint)) == NULL) {
 		RRR_MSG_0("Could not allocate memory for endpoint in %s\n", __func__);
 		ret = 1;
 		goto out_free;
-- 
2.43.0


From 18b9e12fa8bf07bea48d3edf6201138d55e5adb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 31/38] fix: compare complete protocol names in URIs

---
 src/lib/http/http_util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index f2c0530..c9af1dd 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1150,16 +1150,16 @@ static int __rrr_http_util_uri_parse_callback (
 		}
 		else if (rrr_http_util_strcasestr(&new_pos, &result_len_tmp, pos, end, "://") == 0) {
 			ssize_t protocol_name_length = new_pos - pos;
-			if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
+			if (protocol_name_length == 5 && rrr_posix_strncasecmp(pos, "https", 5) == 0) {
 				uri_new->protocol = rrr_strdup("https");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
+			else if (protocol_name_length == 4 && rrr_posix_strncasecmp(pos, "http", 4) == 0) {
 				uri_new->protocol = rrr_strdup("http");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
+			else if (protocol_name_length == 2 && rrr_posix_strncasecmp(pos, "ws", 2) == 0) {
 				uri_new->protocol = rrr_strdup("ws");
 			}
-			else if (protocol_name_length > 0 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
+			else if (protocol_name_length == 3 && rrr_posix_strncasecmp(pos, "wss", 3) == 0) {
 				uri_new->protocol = rrr_strdup("wss");
 			}
 			else {
-- 
2.43.0


From 647212567699748a75f7caac621b9efd3017fdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 32/38] fix: don't read after the end of URI with only hostname

---
 src/lib/http/http_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index c9af1dd..0965d0c 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -1025,7 +1025,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		uri_new->host[result_len_tmp] = '\0';
 	}
 
-	if (**pos == ':') {
+	if (*pos < end && **pos == ':') {
 		(*pos)++;
 		unsigned long long port = 0;
 		if (rrr_http_util_strtoull_raw(&port, &result_len_tmp, *pos, end, 10) != 0 || port < 1 || port > 65535) {
@@ -1039,7 +1039,7 @@ static int __rrr_http_util_uri_parse_hostname_and_port (
 		*pos += result_len_tmp;
 	}
 	else if (force_port) {
-		RRR_MSG_0("Invalid character x%02x after hostname in host:port URI\n", **pos);
+		RRR_MSG_0("Port missing after hostname in host:port URI\n");
 		ret = 1;
 		goto out;
 	}
-- 
2.43.0


From 5200cf43057ba8e11cb6042248a58620e47fc93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 33/38] fix: refuse numbers which are too large

---
 src/lib/http/http_util.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index 0965d0c..df47f09 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -21,6 +21,7 @@ along with this program.  If not, see <http://www.gnu.org/licenses/>.
 
 #include <stdlib.h>
 #include <stdio.h>
+#include <errno.h>
 #include <string.h>
 #include <strings.h>
 #include <ctype.h>
@@ -658,8 +659,14 @@ int rrr_http_util_strtoull_raw (
 	buf[numbers_end - start] = '\0';
 
 	char *endptr;
+	errno = 0;
 	unsigned long long int number = strtoull(buf, &endptr, base);
 
+	if (errno == ERANGE) {
+		RRR_DBG_3("Number was too large in %s\n", __func__);
+		return 1;
+	}
+
 	if (endptr == NULL) {
 		RRR_BUG("Endpointer was NULL in %s\n", __func__);
 	}
-- 
2.43.0


From a670819d263587ee310fac94eafdb50c1a84150b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:06 +0000
Subject: [PATCH 34/38] fix: don't read before empty prefix of endpoint

---
 src/lib/http/http_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/http/http_util.c b/src/lib/http/http_util.c
index df47f09..dd7059b 100644
--- a/src/lib/http/http_util.c
+++ b/src/lib/http/http_util.c
@@ -943,7 +943,7 @@ int rrr_http_util_uri_endpoint_prepend (
 
 		strcpy(endpoint_new, prefix);
 
-		if (*(endpoint_new + strlen(endpoint_new) - 1) == '/') {
+		if (*endpoint_new != '\0' && *(endpoint_new + strlen(endpoint_new) - 1) == '/') {
 			if (*(uri->endpoint) == '/') {
 				// Prefix ends with / and original begins with /, remove one
 				*(endpoint_new + strlen(endpoint_new) - 1) = '\0';
-- 
2.43.0


From 27d8bfb97826f7817d0210b043a7e3698161f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 35/38] fix: refuse chunk length which goes beyond address
 space

---
 src/lib/http/http_part_parse.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index dd6f580..73d0b6d 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -378,7 +378,8 @@ static int __rrr_http_part_parse_chunk (
 	rrr_biglength parsed_bytes_previous_chunk = 0;
 
 	if (last_chunk != NULL) {
-		if (buf + last_chunk->start + last_chunk->length > end) {
+		const rrr_biglength available = rrr_biglength_from_ptr_sub_bug_const(end, buf);
+		if (last_chunk->start > available || last_chunk->length > available - last_chunk->start) {
 			// Need to read more
 			ret = RRR_HTTP_PARSE_INCOMPLETE;
 			goto out;
-- 
2.43.0


From e73cd6a367d6d7b4435f3689747b6203f5c152fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 36/38] fix: refuse content length which makes target size
 overflow

---
 src/lib/http/http_part_parse.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/http/http_part_parse.c b/src/lib/http/http_part_parse.c
index 73d0b6d..85a8d32 100644
--- a/src/lib/http/http_part_parse.c
+++ b/src/lib/http/http_part_parse.c
@@ -704,6 +704,12 @@ int rrr_http_part_parse (
 	const struct rrr_http_header_field *transfer_encoding = rrr_http_part_header_field_get(part, "transfer-encoding");
 
 	if (content_length != NULL) {
+		if (content_length->value_unsigned > RRR_BIGLENGTH_MAX - part->headroom_length - part->header_length) {
+			RRR_MSG_0("Value of 'Content-Length' in HTTP header was too large\n");
+			ret = RRR_HTTP_PARSE_SOFT_ERR;
+			goto out;
+		}
+
 		part->data_length = content_length->value_unsigned;
 		*target_size = part->headroom_length + part->header_length + content_length->value_unsigned;
 
-- 
2.43.0


From 4446a96a60718d4b1e93f5b29980af05954e0ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 37/38] fix: don't truncate pointer difference to 32 bits

---
 src/lib/rrr_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rrr_types.h b/src/lib/rrr_types.h
index 988bf0c..e82e064 100644
--- a/src/lib/rrr_types.h
+++ b/src/lib/rrr_types.h
@@ -392,7 +392,7 @@ static inline rrr_biglength rrr_biglength_from_ptr_sub_bug_const (const void *a,
 		RRR_BUG("Underflow in rrr_biglength_from_ptr_sub_bug_const\n");
 	}
 	uintptr_t r = (uintptr_t) a - (uintptr_t) b;
-	return (rrr_length) r;
+	return (rrr_biglength) r;
 }
 
 static inline void rrr_length_dec_bug (rrr_length *a) {
-- 
2.43.0


From e8527049d2b4d3c861f98e60d19352a325b6b8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:58 +0000
Subject: [PATCH 38/38] fix: don't take next HTTP header field as value of
 empty field

---
 src/lib/http/http_header_fields.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/lib/http/http_header_fields.c b/src/lib/http/http_header_fields.c
index e70c9b6..8f92c9c 100644
--- a/src/lib/http/http_header_fields.c
+++ b/src/lib/http/http_header_fields.c
@@ -1310,8 +1310,17 @@ static int __rrr_http_header_field_parse_name_and_value_whitespace_check_callbac
 
 	rrr_length whitespace_count = rrr_http_util_count_whsp(start, crlf);
 	if (start + whitespace_count == crlf) {
-		// Continue on next line
-		start = crlf + 2;
+		if (crlf + 2 >= end) {
+			return RRR_HTTP_PARSE_INCOMPLETE;
+		}
+		if (crlf[2] != ' ' && crlf[2] != '\t') {
+			// Empty value
+			start = crlf;
+		}
+		else {
+			// Continue on next line
+			start = crlf + 2;
+		}
 		crlf = NULL;
 	}
 	else if (whitespace_count == 0) {
-- 
2.43.0

