From 342c6594e50a408ef090ffead53b71a3465d43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 01/16] fix: return the message buffer of a refused master
 request to the free queue

---
 src/modbus_master.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index f732571..72a8188 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -492,11 +492,13 @@ static modbus_master_req_ret_t generate_request(req_input_param_struct_t *req_pa
     modbus_lib_ret = generate_request_PDU_data(req_msg_buf, req_param);
     if (0 > modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_PDU_REQ_ERROR;
     }
     modbus_lib_ret = modbus_RTU_send(req_msg_buf->req.data, &req_msg_buf->req.len, req_param->slave_ID);
     if (RET_ERROR == modbus_lib_ret)
     {
+        modbus_queue_push(free_q, &req_msg_buf);
         return MODBUS_MASTER_LIB_RTU_SEND_ERROR;
     }
     // req_msg_buf->resp.len=0; // it's allways done before sending every buffer to modbus driver
-- 
2.43.0


From f6df3b239f4b0f444a06692c4674c20fc890dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 02/16] fix: start the reception of a master response with
 clean flags and buffer

---
 src/modbus_master.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 72a8188..550bdff 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -73,6 +73,7 @@ static void modbus_master_enable_resp_timeout_timer(void);
 static void modbus_master_disable_resp_timeout_timer(void);
 
 static void modbus_master_req_sended_callback(void);
+static void modbus_master_reset_reception(void);
 static void modbus_master_T_1_5_char_expired_callback(void);
 static void modbus_master_T_3_5_char_expired_callback(void);
 static void modbus_master_frame_error_callback(void);
@@ -572,9 +573,29 @@ static void modbus_master_disable_resp_timeout_timer(void)
  */
 static void modbus_master_req_sended_callback(void)
 {
+    if ((MODBUS_FLAG_SET == MODBUS_MASTER_REQ_TRANSMITION_FLAG) && (NULL != msg_buf))
+    {
+        modbus_master_reset_reception();
+    }
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_CLEARED;
 }
 
+/**
+ * @brief Discards everything that was received before the request transmission was completed.
+ *
+ * Bytes, silence intervals and errors detected on the line before the end of the request
+ * transmission cannot belong to the response to that request, so the response buffer and all
+ * the reception status flags are reset at that moment.
+ */
+static void modbus_master_reset_reception(void)
+{
+    msg_buf->resp.len = 0;
+    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+    MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+}
+
 /**
  * @brief Sets the Modbus 1.5 character timeout flag upon timer expiration.
  *
@@ -670,7 +691,6 @@ static void modbus_master_transmitting_state_handling(void)
 {
     if (MODBUS_FLAG_CLEARED == MODBUS_MASTER_REQ_TRANSMITION_FLAG)
     {
-        msg_buf->resp.len = 0;
         modbus_master_enable_resp_timeout_timer();
         modbus_master_manager_state_machine = MODBUS_MASTER_RESP_WAITING;
     }
-- 
2.43.0


From 2c747c109499a49036f89408805031aa884bae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 03/16] fix: do not lose or reuse the 3.5 char silence of a
 master response

---
 src/modbus_master.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 550bdff..28c22d7 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -599,7 +599,8 @@ static void modbus_master_reset_reception(void)
 /**
  * @brief Sets the Modbus 1.5 character timeout flag upon timer expiration.
  *
- * This function sets the `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` to `MODBUS_FLAG_SET`.
+ * This function sets the `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` to `MODBUS_FLAG_SET` and clears the
+ * `MODBUS_MASTER_TIMER_3_5_CHAR_FLAG` left by an earlier frame.
  * It serves as a callback function used to indicate that the 1.5 character timeout period
  * has expired during Modbus communication.
  *
@@ -608,6 +609,7 @@ static void modbus_master_reset_reception(void)
  */
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
+    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // the 3.5 char silence of this frame is still to come
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
@@ -749,8 +751,8 @@ void modbus_master_resp_timeout_handle(void)
  * @brief Handles the state when a Modbus RTU response is received.
  *
  * This function processes the response received from the Modbus RTU interface:
- * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG and MODBUS_MASTER_TIMER_3_5_CHAR_FLAG
- *   indicating the end of the response reception timing.
+ * - Resets the MODBUS_MASTER_TIMER_1_5_CHAR_FLAG. The MODBUS_MASTER_TIMER_3_5_CHAR_FLAG is left
+ *   as it is, because the 3.5 char silence after the response may already have expired.
  * - Calls modbus_RTU_recv to interpret the response and determines the RTU_status.
  * - If RTU_status indicates a CRC error (RET_ERROR_CRC):
  *   - Disables the Modbus response timeout timer.
@@ -767,7 +769,6 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
-- 
2.43.0


From c8cc988af503a920e14a15a70357dd08b851a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 04/16] fix: detect the response timeout also when the counter
 passed 1 between two polls

---
 src/modbus_master.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 28c22d7..bfd3b72 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -705,7 +705,7 @@ static void modbus_master_transmitting_state_handling(void)
  * and flags related to Modbus communication:
  * - If `MODBUS_MASTER_TIMER_1_5_CHAR_FLAG` is set, it calls
  *   `modbus_master_RTU_recv_state_handle` to handle the reception of Modbus data.
- * - If `modbus_master_resp_timeout_timer` equals 1, indicating a response timeout,
+ * - If `modbus_master_resp_timeout_timer` has counted down to 1 or below, indicating a response timeout,
  *   it calls `modbus_master_resp_timeout_handle` to handle the timeout error
  *   and subsequently ends the message processing using `modbus_master_msg_process_end`.
  */
@@ -715,7 +715,7 @@ static void modbus_master_resp_waiting_state_handling(void)
     {
         modbus_master_RTU_recv_state_handle();
     }
-    else if (1 == modbus_master_resp_timeout_timer)
+    else if (1 >= modbus_master_resp_timeout_timer)
     {
         modbus_master_resp_timeout_handle();
         modbus_master_msg_process_end();
-- 
2.43.0


From 4a780410843ed950a0e09ba83717a625d56475c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:15 +0000
Subject: [PATCH 05/16] fix: fill master timeout and communication error
 reports from the request

---
 src/modbus_master.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index bfd3b72..ba63448 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -732,7 +732,7 @@ static void modbus_master_resp_waiting_state_handling(void)
  *   - `slave_ID`: Modbus slave address extracted from the request data.
  *   - `data_adr`: Address field from the Modbus request.
  *   - `data_qty`: Quantity field from the Modbus request.
- *   - `fun_conde`: Function code from the Modbus response (if available).
+ *   - `fun_conde`: Function code of the Modbus request.
  *   - `resp_read_error`: Indicates a timeout error (`MODBUS_MASTER_RESP_TIMEOUT_ERR`).
  * - Invokes `modbus_master_data_timeout_error` to handle and report the timeout error.
  */
@@ -742,7 +742,7 @@ void modbus_master_resp_timeout_handle(void)
     timeout_error.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     timeout_error.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
     timeout_error.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
-    timeout_error.fun_conde = msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX];
+    timeout_error.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
     timeout_error.resp_read_error = MODBUS_MASTER_RESP_TIMEOUT_ERR;
     modbus_master_data_timeout_error(&timeout_error);
 }
@@ -864,8 +864,10 @@ static void modbus_master_RTU_CRC_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_RTU_CRC_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
@@ -899,8 +901,10 @@ static void modbus_master_frame_error_state_handling(void)
     {
 
         static modbus_master_error_report_t error_rep;
-        error_rep.slave_ID = msg_buf->resp.data[MODBUS_SLAVE_ADR_IDX];
-        error_rep.fun_conde = (msg_buf->resp.data[MODBUS_FUNCTION_CODE_IDX] & (~MODBUS_EXCEPTION_CODE_MASK));
+        error_rep.slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
+        error_rep.fun_conde = msg_buf->req.data[MODBUS_FUNCTION_CODE_IDX];
+        error_rep.data_adr = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_ADR_IDX]);
+        error_rep.data_qty = read_u16_from_buf(&msg_buf->req.data[MODBUS_REQUEST_QTY_IDX]);
         error_rep.resp_read_error = MODBUS_MASTER_RESP_FRAME_ERR;
         modbus_master_communication_error(&error_rep);
         modbus_master_msg_process_end();
-- 
2.43.0


From c6ac61ed3de3310f7d0a2fa41a49409fb0a816e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 06/16] fix: a frame error in an ignored frame of another slave
 must not spoil the response

---
 src/modbus_master.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index ba63448..8b92ff4 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -759,7 +759,7 @@ void modbus_master_resp_timeout_handle(void)
  *   - Sets MODBUS_MASTER_RTU_CRC_ERROR_FLAG to indicate a CRC error occurred.
  *   - Updates modbus_master_manager_state_machine to MODBUS_MASTER_RESP_RECIVED.
  * - If RTU_status indicates an invalid slave ID (RET_ERROR_SLAVE_ID):
- *   - Resets the response length (msg_buf->resp.len) to 0.
+ *   - Resets the response length (msg_buf->resp.len) to 0 and forgets a frame error of the ignored frame.
  * - If RTU_status is successful (RET_OK):
  *   - Disables the Modbus response timeout timer.
  *   - Updates modbus_master_manager_state_machine to MODBUS_MASTER_RESP_RECIVED.
@@ -779,6 +779,7 @@ static void modbus_master_RTU_recv_state_handle(void)
     else if (RET_ERROR_SLAVE_ID == RTU_status)
     {
         msg_buf->resp.len = 0;
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
     }
     else // RET_OK
     {
-- 
2.43.0


From 83900b30d8ad7541b8faae9b54de1eb546416b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:36 +0000
Subject: [PATCH 07/16] fix: do not miss a transmission done event reported
 from within the driver's send

---
 src/modbus_master.c | 5 +++--
 src/modbus_slave.c  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 8b92ff4..cb35685 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -402,10 +402,11 @@ void update_modbus_master_timout_timer(void)
  */
 static void modbus_master_send_req_from_msg_buf(void)
 {
-    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
-    RTU_driver->enable_rcev(&msg_buf->resp);
+    // set before sending, because the driver may report the end of transmission before send() returns
     MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_SET;
     modbus_master_manager_state_machine = MODBUS_MASTER_TRANSMITTING_REQ;
+    RTU_driver->send(msg_buf->req.data, msg_buf->req.len);
+    RTU_driver->enable_rcev(&msg_buf->resp);
 }
 
 /**
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 957927a..a280f8c 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -194,8 +194,8 @@ static void handle_modbus_slave_msg_recived_state(void)
     {
         parse_master_request_and_prepare_resp(slave_msg_ptr);
         modbus_RTU_send(slave_msg_ptr->resp.data, &slave_msg_ptr->resp.len, modbus_slave_ID);
+        RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET; // set before sending, because the driver may report the end of transmission before send() returns
         slave_RTU_driver->send(slave_msg_ptr->resp.data, slave_msg_ptr->resp.len);
-        RESP_TRANSMITION_FLAG = MODBUS_FLAG_SET;
         slave_manager_state_machine = MODBUS_SLAVE_TRANSMITTING_RESP;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     }
-- 
2.43.0


From d272389d768159a48d78d57f04d79da55b954a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 08/16] fix: start the reception of a slave request with clean
 flags and buffer

---
 src/modbus_slave.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index a280f8c..9b6a343 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -46,6 +46,7 @@ static void handle_modbus_slave_idle_state(void);
 static void handle_modbus_slave_msg_recived_state(void);
 static void handle_modbus_slave_transmitting_resp_state(void);
 static void handle_modbus_slave_default_state(void);
+static void modbus_slave_prepare_for_next_request(void);
 static void init_modbus_data_buffers_and_queues(modbus_mode_t mode);
 static void register_msg_req_resp_data_buffers(modbus_mode_t mode);
 static void init_modbus_driver(modbus_mode_t mode, baud_t baud_rate, parity_t parity);
@@ -185,10 +186,7 @@ static void handle_modbus_slave_msg_recived_state(void)
 {
     if ((MODBUS_FLAG_SET == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
-        slave_msg_ptr->req.len = 0;
-        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
-        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
-        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        modbus_slave_prepare_for_next_request();
     }
     else if ((MODBUS_FLAG_CLEARED == FRAME_ERROR_FLAG) && (MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG))
     {
@@ -215,12 +213,26 @@ static void handle_modbus_slave_transmitting_resp_state(void)
 {
     if (MODBUS_FLAG_CLEARED == RESP_TRANSMITION_FLAG)
     {
-        slave_manager_state_machine = MODBUS_SLAVE_IDLE;
         slave_msg_ptr->resp.len = 0;
-        slave_msg_ptr->req.len = 0;
+        modbus_slave_prepare_for_next_request();
     }
 }
 
+/**
+ * @brief Prepares the Modbus slave for the reception of the next request.
+ *
+ * This function discards the received data together with all line events that belong to it
+ * and switches the Modbus slave state machine to the idle state.
+ */
+static void modbus_slave_prepare_for_next_request(void)
+{
+    slave_msg_ptr->req.len = 0;
+    TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+    slave_manager_state_machine = MODBUS_SLAVE_IDLE;
+}
+
 /**
  * @brief Handles the Modbus slave state machine in the default state.
  *
@@ -337,6 +349,7 @@ static void modbus_resp_send_callback(void)
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
+    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // the 3.5 char silence is counted from the last received character
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
 }
 
-- 
2.43.0


From 83ac0f396225053cb8cad862d71936f80c1b1fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 09/16] fix: an error reported on a silent line without data
 must not spoil the next slave request

---
 src/modbus_slave.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 9b6a343..afb5b31 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -173,6 +173,16 @@ static void handle_modbus_slave_idle_state(void)
         }
         slave_manager_state_machine = MODBUS_SLAVE_MSG_RECIVED;
     }
+    else if ((MODBUS_FLAG_SET == TIMER_3_5_CHAR_FLAG) && (0 == slave_msg_ptr->req.len))
+    {
+        // the line is silent and nothing was received: an error reported without any data doesn't belong to the next request
+        FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
+        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    }
+    else
+    {
+        // Do nothing until a message is received
+    }
 }
 
 /**
-- 
2.43.0


From 79b80455bc10fa0ffd45e351bfd6bc5d654a3469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 10/16] fix: do not execute slave requests shorter than their
 function code requires

---
 src/modbus_slave.c | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index afb5b31..84babb4 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -47,6 +47,7 @@ static void handle_modbus_slave_msg_recived_state(void);
 static void handle_modbus_slave_transmitting_resp_state(void);
 static void handle_modbus_slave_default_state(void);
 static void modbus_slave_prepare_for_next_request(void);
+static bool is_request_complete(const modbus_req_resp_t *req);
 static void init_modbus_data_buffers_and_queues(modbus_mode_t mode);
 static void register_msg_req_resp_data_buffers(modbus_mode_t mode);
 static void init_modbus_driver(modbus_mode_t mode, baud_t baud_rate, parity_t parity);
@@ -167,7 +168,7 @@ static void handle_modbus_slave_idle_state(void)
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
-        if (RTU_status != RET_OK)
+        if ((RTU_status != RET_OK) || (false == is_request_complete(&slave_msg_ptr->req)))
         {
             FRAME_ERROR_FLAG = MODBUS_FLAG_SET;
         }
@@ -185,6 +186,44 @@ static void handle_modbus_slave_idle_state(void)
     }
 }
 
+/**
+ * @brief Checks that a received request is not shorter than its function code requires.
+ *
+ * @param req Pointer to the received request (slave address, PDU and CRC).
+ * @return true when the request contains at least as many bytes as its function code and byte count call for.
+ */
+static bool is_request_complete(const modbus_req_resp_t *req)
+{
+    uint32_t min_len = MODBUS_SLAVE_ADR_BYTE_LEN + sizeof(modbus_req_t) + sizeof(modbus_CRC_t);
+    if (req->len >= min_len)
+    {
+        switch (req->data[MODBUS_FUNCTION_CODE_IDX])
+        {
+        case MODBUS_READ_COILS_FUNC_CODE:
+        case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+        case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+        case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+            min_len = MODBUS_READ_REQUEST_LEN + sizeof(modbus_CRC_t);
+            break;
+        case MODBUS_WRITE_SINGLE_COIL_FUNC_CODE:
+        case MODBUS_WRITE_SINGLE_REGISTER_FUNC_CODE:
+            min_len = MODBUS_WRITE_SINGLE_REQUEST_LEN + sizeof(modbus_CRC_t);
+            break;
+        case MODBUS_WRITE_MULTIPLE_COILS_FUNC_CODE:
+        case MODBUS_WRITE_MULTIPLE_REGISTER_FUNC_CODE:
+            min_len = MODBUS_WRITE_MULTI_REQUEST_LEN + sizeof(modbus_CRC_t);
+            if (req->len >= min_len)
+            {
+                min_len += req->data[MODBUS_REQUEST_BYTE_CNT_IDX];
+            }
+            break;
+        default:
+            break;
+        }
+    }
+    return (req->len >= min_len);
+}
+
 /**
  * @brief Handles the Modbus slave state machine in the message received state.
  *
-- 
2.43.0


From 14dd077e20e0783b39784f6ca13925321284b6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 11/16] fix: discard data received before when the slave is
 initialised again

---
 src/modbus_slave.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index 84babb4..dfed935 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -311,6 +311,8 @@ static void init_modbus_data_buffers_and_queues(modbus_mode_t mode)
 {
     register_msg_req_resp_data_buffers(mode);
     slave_msg_ptr = &slave_msg;
+    slave_msg_ptr->req.len = 0;
+    slave_msg_ptr->resp.len = 0;
 }
 
 /**
-- 
2.43.0


From c4141c5ae2ce432e21f123c2e42415a957d25372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 12/16] fix: a slave initialised for an unsupported mode must
 not use the missing driver

---
 src/modbus_slave.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index dfed935..a68c25b 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -138,6 +138,10 @@ void modbus_slave_init(modbus_mode_t mode, baud_t baud_rate, parity_t parity, mo
  */
 void check_modbus_request(void)
 {
+    if (NULL == slave_RTU_driver)
+    {
+        return; // not initialised or initialised for an unsupported mode
+    }
     switch (slave_manager_state_machine)
     {
     case MODBUS_SLAVE_IDLE:
-- 
2.43.0


From 286188bb47f4814759ab060b4726bb0623c1c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 13/16] fix: do not take a response that doesn't fit the
 request for its answer

---
 src/master_internall/modbus_master_PDU.c | 61 ++++++++++++++++++++++++
 src/master_internall/modbus_master_PDU.h |  1 +
 src/modbus_master.c                      | 11 ++++-
 3 files changed, 71 insertions(+), 2 deletions(-)

diff --git a/src/master_internall/modbus_master_PDU.c b/src/master_internall/modbus_master_PDU.c
index dfab5bb..ebfb91d 100644
--- a/src/master_internall/modbus_master_PDU.c
+++ b/src/master_internall/modbus_master_PDU.c
@@ -324,6 +324,67 @@ modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_i
     return RET_OK;
 }
 
+/**
+ * @brief Checks that a received response is an answer to the request it was received for.
+ *
+ * A response is an answer to the request if it carries the request's function code and has exactly
+ * the byte count and length the request calls for, or the echo of the write request, or if it is
+ * the exception response to that function code.
+ *
+ * @param modbus_msg Pointer to the Modbus message structure with the request and the complete received response (with CRC).
+ * @return modbus_ret_t Returns RET_OK if the response fits the request.
+ *         - @retval RET_NULL_PTR_ERROR if the message or one of its buffers is missing.
+ *         - @retval RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH if the function code is not that of the request.
+ *         - @retval RET_ERROR_BYTE_CNT if the byte count or the length doesn't fit the request.
+ *         - @retval RET_ERROR if the echo of a write request differs from the request.
+ */
+modbus_ret_t modbus_master_check_slave_resp(const modbus_msg_t *modbus_msg)
+{
+    if (RET_OK != check_null_ptr_correctness(modbus_msg))
+    {
+        return RET_NULL_PTR_ERROR;
+    }
+    const modbus_buf_t *req = modbus_msg->req.data;
+    const modbus_buf_t *resp = modbus_msg->resp.data;
+    const modbus_req_t req_fun_code = req[MODBUS_FUNCTION_CODE_IDX];
+    uint32_t byte_cnt;
+
+    if ((req_fun_code | MODBUS_EXCEPTION_CODE_MASK) == resp[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return ((MODBUS_EXCEPTION_CODE_RESP_LEN + sizeof(modbus_CRC_t)) == modbus_msg->resp.len) ? RET_OK : RET_ERROR_BYTE_CNT;
+    }
+    if (req_fun_code != resp[MODBUS_FUNCTION_CODE_IDX])
+    {
+        return RET_ERROR_REQ_RESP_FUN_CODE_MISMATCH;
+    }
+    switch (req_fun_code)
+    {
+    case MODBUS_READ_COILS_FUNC_CODE:
+    case MODBUS_READ_DISCRETE_INPUTS_FUNC_CODE:
+        byte_cnt = get_coil_din_byte_count(read_u16_from_buf(&req[MODBUS_REQUEST_QTY_IDX]));
+        break;
+    case MODBUS_READ_HOLDING_REGISTERS_FUNC_CODE:
+    case MODBUS_READ_INPUT_REGISTERS_FUNC_CODE:
+        byte_cnt = 2U * read_u16_from_buf(&req[MODBUS_REQUEST_QTY_IDX]);
+        break;
+    default:
+        // write response: echo of the address and of the value or quantity
+        if ((MODBUS_WRITE_SINGLE_RESP_LEN + sizeof(modbus_CRC_t)) != modbus_msg->resp.len)
+        {
+            return RET_ERROR_BYTE_CNT;
+        }
+        return ((read_u16_from_buf(&req[MODBUS_REQUEST_ADR_IDX]) == read_u16_from_buf(&resp[MODBUS_RESP_WRITE_ADR_IDX])) &&
+                (read_u16_from_buf(&req[MODBUS_REQUEST_QTY_IDX]) == read_u16_from_buf(&resp[MODBUS_RESP_WRITE_SINGLE_DATA_IDX])))
+                   ? RET_OK
+                   : RET_ERROR;
+    }
+    if ((byte_cnt != resp[MODBUS_RESP_READ_BYTE_CNT_IDX]) || ((MODBUS_READ_RESP_LEN + byte_cnt + sizeof(modbus_CRC_t)) != modbus_msg->resp.len))
+    {
+        return RET_ERROR_BYTE_CNT;
+    }
+    return RET_OK;
+}
+
 /**
  * @brief Processes the Modbus message response.
  *
diff --git a/src/master_internall/modbus_master_PDU.h b/src/master_internall/modbus_master_PDU.h
index 3518c1c..931fdd6 100644
--- a/src/master_internall/modbus_master_PDU.h
+++ b/src/master_internall/modbus_master_PDU.h
@@ -34,6 +34,7 @@ extern "C"
     modbus_ret_t modbus_master_write_multiple_reg_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
     modbus_ret_t modbus_master_write_multiple_coils_req(modbus_msg_t *msg_buf, req_input_param_struct_t *req_param);
 
+    modbus_ret_t modbus_master_check_slave_resp(const modbus_msg_t *modbus_msg);
     modbus_ret_t modbus_master_read_slave_resp(modbus_msg_t *modbus_msg);
 
 #ifdef __cplusplus
diff --git a/src/modbus_master.c b/src/modbus_master.c
index cb35685..46396c2 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -835,8 +835,15 @@ static void modbus_master_resp_recived_state_handling(void)
  */
 static void modbus_master_msg_recived_correctly_state_handle(void)
 {
-    modbus_master_read_slave_resp(msg_buf);
-    modbus_master_msg_process_end();
+    if (RET_OK == modbus_master_check_slave_resp(msg_buf))
+    {
+        modbus_master_read_slave_resp(msg_buf);
+        modbus_master_msg_process_end();
+    }
+    else
+    {
+        modbus_master_frame_error_state_handling();
+    }
 }
 
 /**
-- 
2.43.0


From da40b1ad79bc8a2da9b3867141215dd4c91b0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 14/16] fix: a 1.5 char silence without received data must not
 start the processing of a response

---
 src/modbus_master.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index 46396c2..b0f5dc2 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -610,8 +610,11 @@ static void modbus_master_reset_reception(void)
  */
 static void modbus_master_T_1_5_char_expired_callback(void)
 {
-    MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // the 3.5 char silence of this frame is still to come
-    MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
+    if ((NULL != msg_buf) && (0 != msg_buf->resp.len)) // a silence without anything received doesn't end a frame
+    {
+        MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // the 3.5 char silence of this frame is still to come
+        MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
+    }
 }
 
 /**
-- 
2.43.0


From c500ee3c6f52cb36c5c21923fac51d006b6b2aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 15/16] fix: a 1.5 char silence without received data must not
 start the processing of a request

---
 src/modbus_slave.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index a68c25b..c9204ac 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -404,8 +404,11 @@ static void modbus_resp_send_callback(void)
  */
 static void modbus_T_1_5_char_expired_callback(void)
 {
-    TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // the 3.5 char silence is counted from the last received character
-    TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
+    if (0 != slave_msg_ptr->req.len) // a silence without anything received doesn't end a request
+    {
+        TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // the 3.5 char silence is counted from the last received character
+        TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
+    }
 }
 
 /**
-- 
2.43.0


From de226281ba055f8fdef9a242401babaf099fc93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:25 +0000
Subject: [PATCH 16/16] fix: data received before and after a silence that was
 not processed yet do not form one frame

---
 src/modbus_master.c | 11 +++++++++++
 src/modbus_slave.c  | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/modbus_master.c b/src/modbus_master.c
index b0f5dc2..4163cd2 100644
--- a/src/modbus_master.c
+++ b/src/modbus_master.c
@@ -63,6 +63,7 @@ PRIVATE modbus_status_flag_t MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_UNK
 PRIVATE modbus_status_flag_t MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t MODBUS_MASTER_REQ_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t MODBUS_MASTER_RTU_CRC_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
+static modbus_buf_size_t modbus_master_resp_len_at_silence = 0; // response length when the last 1.5 char silence was reported
 
 static void modbus_master_send_req_from_msg_buf(void);
 static void register_msg_req_resp_data_buffers(modbus_mode_t mode);
@@ -591,6 +592,7 @@ static void modbus_master_req_sended_callback(void)
 static void modbus_master_reset_reception(void)
 {
     msg_buf->resp.len = 0;
+    modbus_master_resp_len_at_silence = 0;
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
@@ -612,6 +614,11 @@ static void modbus_master_T_1_5_char_expired_callback(void)
 {
     if ((NULL != msg_buf) && (0 != msg_buf->resp.len)) // a silence without anything received doesn't end a frame
     {
+        if ((MODBUS_FLAG_SET == MODBUS_MASTER_TIMER_1_5_CHAR_FLAG) && (modbus_master_resp_len_at_silence != msg_buf->resp.len))
+        {
+            MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_SET; // data received before and after a silence don't form one frame
+        }
+        modbus_master_resp_len_at_silence = msg_buf->resp.len;
         MODBUS_MASTER_TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // the 3.5 char silence of this frame is still to come
         MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
     }
@@ -773,6 +780,10 @@ static void modbus_master_RTU_recv_state_handle(void)
     modbus_ret_t RTU_status;
     modbus_device_ID_t modbus_req_slave_ID = msg_buf->req.data[MODBUS_SLAVE_ADR_IDX];
     MODBUS_MASTER_TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+    if ((0 != modbus_master_resp_len_at_silence) && (modbus_master_resp_len_at_silence != msg_buf->resp.len))
+    {
+        MODBUS_MASTER_FRAME_ERROR_FLAG = MODBUS_FLAG_SET; // the reception was continued after the silence
+    }
     RTU_status = modbus_RTU_recv(msg_buf->resp.data, msg_buf->resp.len, modbus_req_slave_ID);
     if (RET_ERROR_CRC == RTU_status)
     {
diff --git a/src/modbus_slave.c b/src/modbus_slave.c
index c9204ac..ebb3832 100644
--- a/src/modbus_slave.c
+++ b/src/modbus_slave.c
@@ -41,6 +41,7 @@ PRIVATE modbus_status_flag_t TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t FRAME_ERROR_FLAG = MODBUS_FLAG_UNKNOWN;
 PRIVATE modbus_status_flag_t RESP_TRANSMITION_FLAG = MODBUS_FLAG_UNKNOWN;
+static modbus_buf_size_t req_len_at_silence = 0; // request length when the last 1.5 char silence was reported
 
 static void handle_modbus_slave_idle_state(void);
 static void handle_modbus_slave_msg_recived_state(void);
@@ -171,6 +172,10 @@ static void handle_modbus_slave_idle_state(void)
     {
         modbus_ret_t RTU_status;
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
+        if ((0 != req_len_at_silence) && (req_len_at_silence != slave_msg_ptr->req.len))
+        {
+            FRAME_ERROR_FLAG = MODBUS_FLAG_SET; // the reception was continued after the silence
+        }
         RTU_status = modbus_RTU_recv(slave_msg_ptr->req.data, slave_msg_ptr->req.len, modbus_slave_ID);
         if ((RTU_status != RET_OK) || (false == is_request_complete(&slave_msg_ptr->req)))
         {
@@ -280,6 +285,7 @@ static void handle_modbus_slave_transmitting_resp_state(void)
 static void modbus_slave_prepare_for_next_request(void)
 {
     slave_msg_ptr->req.len = 0;
+    req_len_at_silence = 0;
     TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED;
     FRAME_ERROR_FLAG = MODBUS_FLAG_CLEARED;
@@ -406,6 +412,11 @@ static void modbus_T_1_5_char_expired_callback(void)
 {
     if (0 != slave_msg_ptr->req.len) // a silence without anything received doesn't end a request
     {
+        if ((MODBUS_FLAG_SET == TIMER_1_5_CHAR_FLAG) && (req_len_at_silence != slave_msg_ptr->req.len))
+        {
+            FRAME_ERROR_FLAG = MODBUS_FLAG_SET; // data received before and after a silence don't form one frame
+        }
+        req_len_at_silence = slave_msg_ptr->req.len;
         TIMER_3_5_CHAR_FLAG = MODBUS_FLAG_CLEARED; // the 3.5 char silence is counted from the last received character
         TIMER_1_5_CHAR_FLAG = MODBUS_FLAG_SET;
     }
-- 
2.43.0

