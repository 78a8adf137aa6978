From 55f6d1227022906b5b0c90fd58bee085e5cb5c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:59 +0000
Subject: [PATCH 01/29] fix: reject packets whose header length is impossible
 instead of crashing the receiver

A header length of 0, one larger than the packet, or a body close to 64 KiB made
Package.Decode slice out of range (uint16 overflow), and the connection handler
computed a wrapped packet length. Any peer could take the whole process down.
---
 cli/receiver/server/server.go | 8 ++++++--
 libs/egts/egts_pkg.go         | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 49f30c7..ef022ba 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -93,9 +93,13 @@ func (s *Server) handleConn(conn net.Conn) {
 
 			// вычисляем длину пакета, равную длине заголовка (HL) + длина тела (FDL) + CRC пакета 2 байта если есть FDL из приказа минтранса №285
 			bodyLen := binary.LittleEndian.Uint16(headerBuf[5:7])
-			pkgLen := uint16(headerBuf[3])
+			pkgLen := int(headerBuf[3])
 			if bodyLen > 0 {
-				pkgLen += bodyLen + 2
+				pkgLen += int(bodyLen) + 2
+			}
+			if pkgLen < headerLen {
+				log.WithField("ip", conn.RemoteAddr()).Warn("Некорректная длина заголовка пакета. Закрыто соединение")
+				return
 			}
 			// получаем концовку ЕГТС пакета
 			buf := make([]byte, pkgLen-headerLen)
diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index d7c0600..ba0f93e 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -121,6 +121,11 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 		return egtsPcIncHeaderform, fmt.Errorf("Не удалось получить crc заголовка: %v", err)
 	}
 
+	// длина заголовка должна совпадать с фактически разобранной частью, иначе границы тела пакета не определены
+	if int(p.HeaderLength) != len(content)-buf.Len() {
+		return egtsPcIncHeaderform, fmt.Errorf("Некорректная длина заголовка пакета: %d", p.HeaderLength)
+	}
+
 	if p.HeaderCheckSum != crc8(content[:p.HeaderLength-1]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма заголовка пакета")
 	}
@@ -160,7 +165,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
 
-	if p.ServicesFrameDataCheckSum != crc16(content[p.HeaderLength:uint16(p.HeaderLength)+p.FrameDataLength]) {
+	if p.ServicesFrameDataCheckSum != crc16(content[int(p.HeaderLength):int(p.HeaderLength)+int(p.FrameDataLength)]) {
 		return egtsPcHeaderCrcError, fmt.Errorf("Не верная сумма тела пакета")
 	}
 	return egtsPcOk, err
-- 
2.43.0


From 32c5e09a4c8cfdf7e152b0c9d6c4070a6c6891ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:35 +0000
Subject: [PATCH 02/29] fix: do not confirm a record that could not be stored

When a store rejected a record the terminal still got record status 0 and
dropped its copy, so the telemetry was lost. Answer with EGTS_PC_IO_ERROR.
---
 cli/receiver/server/server.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index ef022ba..f1fd25c 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -11,8 +11,9 @@ import (
 )
 
 const (
-	egtsPcOk  = 0
-	headerLen = 10
+	egtsPcOk      = 0
+	egtsPcIoError = 155
+	headerLen     = 10
 )
 
 type Server struct {
@@ -148,13 +149,14 @@ func (s *Server) handleConn(conn net.Conn) {
 				isPkgSave = false
 				packetIDBytes := make([]byte, 4)
 
+				recResponse := &egts.SrResponse{
+					ConfirmedRecordNumber: rec.RecordNumber,
+					RecordStatus:          egtsPcOk,
+				}
 				srResponsesRecord = append(srResponsesRecord, egts.RecordData{
 					SubrecordType:   egts.SrRecordResponseType,
 					SubrecordLength: 3,
-					SubrecordData: &egts.SrResponse{
-						ConfirmedRecordNumber: rec.RecordNumber,
-						RecordStatus:          egtsPcOk,
-					},
+					SubrecordData:   recResponse,
 				})
 				serviceType = rec.SourceServiceType
 				log.Info("Тип сервиса ", serviceType)
@@ -276,6 +278,8 @@ func (s *Server) handleConn(conn net.Conn) {
 				if isPkgSave {
 					if err := s.store.Save(&exportPacket); err != nil {
 						log.WithField("err", err).Error("Ошибка сохранения телеметрии")
+						// запись не сохранена, терминал не должен считать ее обработанной
+						recResponse.RecordStatus = egtsPcIoError
 					}
 				}
 			}
-- 
2.43.0


From c948166c65046165ad379c9c999d4466116940a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:38 +0000
Subject: [PATCH 03/29] fix: a failing store no longer keeps the record from
 the stores after it

Repository.Save returned at the first error, so stores later in the list never
saw the record although they were working.
---
 cli/receiver/storage/store.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index aac933e..2095869 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -46,12 +46,14 @@ func (r *Repository) AddStore(s Saver) {
 
 //Save сохраняет данные во все установленные хранилища
 func (r *Repository) Save(m interface{ ToBytes() ([]byte, error) }) error {
+	var firstErr error
 	for _, store := range r.storages {
-		if err := store.Save(m); err != nil {
-			return err
+		// ошибка одного хранилища не должна лишать данных остальные
+		if err := store.Save(m); err != nil && firstErr == nil {
+			firstErr = err
 		}
 	}
-	return nil
+	return firstErr
 }
 
 //LoadStorages загружает хранилища из структуры конфига
-- 
2.43.0


From 5833d25e1da5c12d71d50879e20c7dce5fd960ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:41 +0000
Subject: [PATCH 04/29] fix: send EGTS_SR_RESULT_CODE in an EGTS_PT_APPDATA
 packet

It was sent as EGTS_PT_RESPONSE without the response header, which no decoder
(this library's included) can parse, so authorisation never completed.
---
 cli/receiver/server/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index f1fd25c..4427c5e 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -396,7 +396,7 @@ func createSrResultCode(pid uint16, resultCode uint8) ([]byte, error) {
 		HeaderEncoding:    0,
 		FrameDataLength:   sfd.Length(),
 		PacketIdentifier:  pid + 1,
-		PacketType:        egts.PtResponsePacket,
+		PacketType:        egts.PtAppdataPacket,
 		ServicesFrameData: &sfd,
 	}
 
-- 
2.43.0


From 025703666d993fb6ff8f85abd14693a0c773837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:44 +0000
Subject: [PATCH 05/29] fix: Run returns after Stop instead of spinning on the
 closed listener

---
 cli/receiver/server/server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 4427c5e..0b8d96d 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -2,6 +2,7 @@ package server
 
 import (
 	"encoding/binary"
+	"errors"
 	"github.com/kuznetsovin/egts-protocol/cli/receiver/storage"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
 	log "github.com/sirupsen/logrus"
@@ -36,6 +37,10 @@ func (s *Server) Run() {
 	for {
 		conn, err := s.l.Accept()
 		if err != nil {
+			// сервер остановлен
+			if errors.Is(err, net.ErrClosed) {
+				return
+			}
 			log.WithField("err", err).Errorf("Ошибка соединения")
 		} else {
 			go s.handleConn(conn)
-- 
2.43.0


From 13231500721bd65dd020e9797659e9abc11c9da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:47 +0000
Subject: [PATCH 06/29] fix: build the record number from counters 110 and 111
 in the right byte order

The three low bytes were stored big-endian and read back little-endian, so the
packet id of every record numbered by both counters was scrambled.
---
 cli/receiver/server/server.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 0b8d96d..70c2195 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -152,7 +152,7 @@ func (s *Server) handleConn(conn net.Conn) {
 				}
 
 				isPkgSave = false
-				packetIDBytes := make([]byte, 4)
+				recordID := uint32(0)
 
 				recResponse := &egts.SrResponse{
 					ConfirmedRecordNumber: rec.RecordNumber,
@@ -246,20 +246,12 @@ func (s *Server) handleConn(conn net.Conn) {
 						switch subRecData.CounterNumber {
 						case 110:
 							// Три младших байта номера передаваемой записи (идет вместе с каждой POS_DATA).
-							binary.BigEndian.PutUint32(packetIDBytes, subRecData.CounterValue)
-							exportPacket.PacketID = subRecData.CounterValue
+							recordID = recordID&0xFF000000 | subRecData.CounterValue&0x00FFFFFF
+							exportPacket.PacketID = recordID
 						case 111:
 							// один старший байт номера передаваемой записи (идет вместе с каждой POS_DATA).
-							tmpBuf := make([]byte, 4)
-							binary.BigEndian.PutUint32(tmpBuf, subRecData.CounterValue)
-
-							if len(packetIDBytes) == 4 {
-								packetIDBytes[3] = tmpBuf[3]
-							} else {
-								packetIDBytes = tmpBuf
-							}
-
-							exportPacket.PacketID = binary.LittleEndian.Uint32(packetIDBytes)
+							recordID = recordID&0x00FFFFFF | subRecData.CounterValue<<24
+							exportPacket.PacketID = recordID
 						}
 					case *egts.SrLiquidLevelSensor:
 						log.Debug("Разбор подзаписи EGTS_SR_LIQUID_LEVEL_SENSOR")
-- 
2.43.0


From f2e9cba2e0b01df905ea6c8d77f781031dd003dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:37 +0000
Subject: [PATCH 07/29] fix: store southern latitudes and western longitudes
 with their sign

EGTS transmits absolute values plus hemisphere flags; the flags were ignored, so
positions south of the equator or west of Greenwich were mirrored.
---
 cli/receiver/server/server.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 70c2195..195737d 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -196,8 +196,15 @@ func (s *Server) handleConn(conn net.Conn) {
 
 						exportPacket.NavigationTimestamp = subRecData.NavigationTime.Unix()
 						exportPacket.ReceivedTimestamp = receivedTimestamp
+						// координаты передаются по модулю, полушарие задают флаги
 						exportPacket.Latitude = subRecData.Latitude
+						if subRecData.LAHS == "1" {
+							exportPacket.Latitude = -exportPacket.Latitude
+						}
 						exportPacket.Longitude = subRecData.Longitude
+						if subRecData.LOHS == "1" {
+							exportPacket.Longitude = -exportPacket.Longitude
+						}
 						exportPacket.Speed = subRecData.Speed
 						exportPacket.Course = subRecData.Direction
 					case *egts.SrExtPosData:
-- 
2.43.0


From 02c8ea9d6f383c039251740d18e7175cb09d475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:39 +0000
Subject: [PATCH 08/29] fix: keep courses of 256 degrees and more

The record's course was 8 bits wide and the highest bit of the direction was
folded into bit 7, so 300 degrees was stored as 172.
---
 cli/receiver/server/server.go  | 6 +++++-
 cli/receiver/storage/packet.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 195737d..410632b 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -206,7 +206,11 @@ func (s *Server) handleConn(conn net.Conn) {
 							exportPacket.Longitude = -exportPacket.Longitude
 						}
 						exportPacket.Speed = subRecData.Speed
-						exportPacket.Course = subRecData.Direction
+						// старший бит курса декодер совмещает с 7-м битом направления
+						exportPacket.Course = uint16(subRecData.Direction)
+						if subRecData.DirectionHighestBit == 1 {
+							exportPacket.Course = uint16(subRecData.Direction&^0x80) | 0x100
+						}
 					case *egts.SrExtPosData:
 						log.Debug("Разбор подзаписи EGTS_SR_EXT_POS_DATA")
 						exportPacket.Nsat = subRecData.Satellites
diff --git a/cli/receiver/storage/packet.go b/cli/receiver/storage/packet.go
index 48ea5c6..4ef32ed 100644
--- a/cli/receiver/storage/packet.go
+++ b/cli/receiver/storage/packet.go
@@ -17,7 +17,7 @@ type NavRecord struct {
 	Vdop                uint16         `json:"vdop"`
 	Nsat                uint8          `json:"nsat"`
 	Ns                  uint16         `json:"ns"`
-	Course              uint8          `json:"course"`
+	Course              uint16         `json:"course"`
 	AnSensors           []AnSensor     `json:"an_sensors"`
 	LiquidSensors       []LiquidSensor `json:"liquid_sensors"`
 }
-- 
2.43.0


From f228738ea4656ccff1fb7e8564f6c5a269565812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:42 +0000
Subject: [PATCH 09/29] fix: close connections that stay silent longer than
 conn_ttl

The timer was only looked at after end of stream, so a terminal that vanished
without closing its connection held it, and its handler, forever.
---
 cli/receiver/server/server.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/cli/receiver/server/server.go b/cli/receiver/server/server.go
index 410632b..9dbe55a 100644
--- a/cli/receiver/server/server.go
+++ b/cli/receiver/server/server.go
@@ -56,9 +56,26 @@ func (s *Server) Stop() error {
 	return nil
 }
 
+// idleConn ограничивает время ожидания данных от клиента
+type idleConn struct {
+	net.Conn
+	ttl time.Duration
+}
+
+func (c *idleConn) Read(b []byte) (int, error) {
+	if c.ttl > 0 {
+		if err := c.SetReadDeadline(time.Now().Add(c.ttl)); err != nil {
+			return 0, err
+		}
+	}
+	return c.Conn.Read(b)
+}
+
 func (s *Server) handleConn(conn net.Conn) {
 	defer conn.Close()
 
+	conn = &idleConn{Conn: conn, ttl: s.ttl}
+
 	var (
 		isPkgSave         bool
 		srResultCodePkg   []byte
-- 
2.43.0


From ee35ebae7022c1947c2ecb39aa715b99b0fdd4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:39 +0000
Subject: [PATCH 10/29] fix: one storage that cannot be opened no longer keeps
 out the others

---
 cli/receiver/storage/store.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cli/receiver/storage/store.go b/cli/receiver/storage/store.go
index 2095869..ecd66a8 100644
--- a/cli/receiver/storage/store.go
+++ b/cli/receiver/storage/store.go
@@ -62,8 +62,9 @@ func (r *Repository) LoadStorages(storages map[string]map[string]string) error {
 		return InvalidStorage
 	}
 
-	var db Store
+	var firstErr error
 	for store, params := range storages {
+		var db Store
 		switch store {
 		case "rabbitmq":
 			db = &rabbitmq.Connector{}
@@ -77,17 +78,23 @@ func (r *Repository) LoadStorages(storages map[string]map[string]string) error {
 			db = &redis.Connector{}
 		case "mysql":
 			db = &mysql.Connector{}
-		default:
-			return UnknownStorage
 		}
 
-		if err := db.Init(params); err != nil {
-			return err
+		// хранилище, которое не удалось открыть, не должно мешать остальным
+		err := UnknownStorage
+		if db != nil {
+			err = db.Init(params)
+		}
+		if err != nil {
+			if firstErr == nil {
+				firstErr = err
+			}
+			continue
 		}
 
 		r.AddStore(db)
 	}
-	return nil
+	return firstErr
 }
 
 //NewRepository создает пустой репозиторий
-- 
2.43.0


From 59ee3f13d9e0d8f6d438eaa09fbcd1fb8ab2c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:51 +0000
Subject: [PATCH 11/29] fix: redis storage without db in its settings uses
 database 0

---
 cli/receiver/storage/store/redis/connector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/redis/connector.go b/cli/receiver/storage/store/redis/connector.go
index 70c75b1..b050cf4 100644
--- a/cli/receiver/storage/store/redis/connector.go
+++ b/cli/receiver/storage/store/redis/connector.go
@@ -39,7 +39,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 		return fmt.Errorf("не задан адрес redis сервера")
 	}
 
-	configDb, _ := c.config["db"]
+	configDb, ok := c.config["db"]
 	if !ok {
 		configDb = "0"
 	}
-- 
2.43.0


From ff2af384db5ce707fe54f0767c405810ef5c7ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:00 +0000
Subject: [PATCH 12/29] fix: the RabbitMQ storage reconnects after losing its
 connection

---
 .../storage/store/rabbitmq/connector.go       | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 68da009..0447c6d 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,33 +16,40 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"sync"
 )
 
 type Connector struct {
 	connection *amqp.Connection
 	channel    *amqp.Channel
 	config     map[string]string
+	mu         sync.Mutex
 }
 
 func (c *Connector) Init(cfg map[string]string) error {
-	var (
-		err error
-	)
 	if cfg == nil {
 		return fmt.Errorf("Не корректная ссылка на конфигурацию")
 	}
 
 	c.config = cfg
+	return c.connect()
+}
+
+func (c *Connector) connect() error {
 	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
-	if c.connection, err = amqp.Dial(conStr); err != nil {
+	connection, err := amqp.Dial(conStr)
+	if err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
 	}
 
-	if c.channel, err = c.connection.Channel(); err != nil {
+	channel, err := connection.Channel()
+	if err != nil {
+		connection.Close()
 		return fmt.Errorf("Ошибка открытия канала RabbitMQ: %v", err)
 	}
 
-	return err
+	c.connection, c.channel = connection, channel
+	return nil
 }
 
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
@@ -55,18 +62,33 @@ func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 		return fmt.Errorf("Ошибка сериализации  пакета: %v", err)
 	}
 
-	if err = c.channel.Publish(
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	err = c.publish(innerPkg)
+	if err == amqp.ErrClosed {
+		// соединение с брокером потеряно, пробуем его восстановить
+		if err = c.connect(); err != nil {
+			return err
+		}
+		err = c.publish(innerPkg)
+	}
+	if err != nil {
+		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
+	}
+	return nil
+}
+
+func (c *Connector) publish(body []byte) error {
+	return c.channel.Publish(
 		c.config["exchange"],
 		c.config["key"],
 		false,
 		false,
 		amqp.Publishing{
 			ContentType: "text/plain",
-			Body:        innerPkg,
-		}); err != nil {
-		return fmt.Errorf("Ошибка отправки сырого пакета в RabbitMQ: %v", err)
-	}
-	return nil
+			Body:        body,
+		})
 }
 
 func (c *Connector) Close() error {
-- 
2.43.0


From 52f4294f9736ba9c64c171f8e08bc89968128e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 13/29] fix: credentials with special characters reach RabbitMQ

---
 cli/receiver/storage/store/rabbitmq/connector.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/rabbitmq/connector.go b/cli/receiver/storage/store/rabbitmq/connector.go
index 0447c6d..c6ceaf8 100644
--- a/cli/receiver/storage/store/rabbitmq/connector.go
+++ b/cli/receiver/storage/store/rabbitmq/connector.go
@@ -16,6 +16,7 @@ exchange_type = "topic"
 import (
 	"fmt"
 	"github.com/streadway/amqp"
+	"net/url"
 	"sync"
 )
 
@@ -36,7 +37,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 }
 
 func (c *Connector) connect() error {
-	conStr := fmt.Sprintf("amqp://%s:%s@%s:%s/", c.config["user"], c.config["password"], c.config["host"], c.config["port"])
+	conStr := fmt.Sprintf("amqp://%s@%s:%s/", url.UserPassword(c.config["user"], c.config["password"]), c.config["host"], c.config["port"])
 	connection, err := amqp.Dial(conStr)
 	if err != nil {
 		return fmt.Errorf("Ошибка установки соединеия RabbitMQ: %v", err)
-- 
2.43.0


From 57ebbd439deee912598225b4737db350e3eede89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:22 +0000
Subject: [PATCH 14/29] fix: PostgreSQL settings with spaces, quotes or
 backslashes are passed on intact

---
 cli/receiver/storage/store/postgresql/connector.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cli/receiver/storage/store/postgresql/connector.go b/cli/receiver/storage/store/postgresql/connector.go
index 6db4bad..713d868 100644
--- a/cli/receiver/storage/store/postgresql/connector.go
+++ b/cli/receiver/storage/store/postgresql/connector.go
@@ -19,6 +19,7 @@ import (
 	"database/sql"
 	"fmt"
 	_ "github.com/lib/pq"
+	"strings"
 )
 
 type Connector struct {
@@ -35,7 +36,7 @@ func (c *Connector) Init(cfg map[string]string) error {
 	}
 	c.config = cfg
 	connStr := fmt.Sprintf("dbname=%s host=%s port=%s user=%s password=%s sslmode=%s",
-		c.config["database"], c.config["host"], c.config["port"], c.config["user"], c.config["password"], c.config["sslmode"])
+		quote(c.config["database"]), quote(c.config["host"]), quote(c.config["port"]), quote(c.config["user"]), quote(c.config["password"]), quote(c.config["sslmode"]))
 	if c.connection, err = sql.Open("postgres", connStr); err != nil {
 		return fmt.Errorf("Ошибка подключения к postgresql: %v", err)
 	}
@@ -46,6 +47,11 @@ func (c *Connector) Init(cfg map[string]string) error {
 	return err
 }
 
+// quote экранирует значение параметра строки подключения
+func quote(value string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(value) + "'"
+}
+
 func (c *Connector) Save(msg interface{ ToBytes() ([]byte, error) }) error {
 	if msg == nil {
 		return fmt.Errorf("Не корректная ссылка на пакет")
-- 
2.43.0


From 21a584310462b6204728135b8c443e86c48e417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 15/29] fix: packet-gen exits with 0 when the packet was
 processed

---
 cli/packet-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 75f10ca..c21ae40 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -221,5 +221,4 @@ func main() {
 	}
 
 	fmt.Println("Packet sent and processed correct")
-	os.Exit(1)
 }
-- 
2.43.0


From 052127d0d7285486bcb749e8980fd6c7ccecbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 16/29] fix: packet-gen sends the time it was given

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index c21ae40..86b8571 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -113,7 +113,7 @@ func main() {
 					egts.RecordData{
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
-							NavigationTime:      time.Date(2021, time.February, 20, 0, 30, 40, 0, time.UTC),
+							NavigationTime:      timestamp,
 							Latitude:            lat,
 							Longitude:           lon,
 							ALTE:                "1",
-- 
2.43.0


From fe9a31944f065d637d75d7fd1b8d3c450e2a0ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 17/29] fix: packet-gen waits 5 seconds for the ack by default,
 as documented

---
 cli/packet-gen/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 86b8571..7b243cf 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -58,7 +58,7 @@ func main() {
 	flag.IntVar(&liqLvl, "liquid", 0, "Liquid level for first sensor")
 	flag.Float64Var(&lat, "lat", 0, "Latitude")
 	flag.Float64Var(&lon, "lon", 0, "Longitude")
-	flag.IntVar(&ackTimeout, "timeout", 0, "Ack waiting time in seconds, Default: 5")
+	flag.IntVar(&ackTimeout, "timeout", 5, "Ack waiting time in seconds, Default: 5")
 	flag.StringVar(&server, "server", "localhost:5555", "Egts server address in format <ip>:<port>")
 
 	flag.Parse()
-- 
2.43.0


From 6bf26f042e7a0cc6a06fa2614430015ca1119a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 18/29] fix: packet-gen sends southern and western coordinates

---
 cli/packet-gen/main.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 7b243cf..0ed976a 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"math"
 	"net"
 	"os"
 	"time"
@@ -83,6 +84,15 @@ func main() {
 		os.Exit(1)
 	}
 
+	// the protocol keeps the absolute values of the coordinates and their signs in flags
+	lahs, lohs := "0", "0"
+	if lat < 0 {
+		lahs = "1"
+	}
+	if lon < 0 {
+		lohs = "1"
+	}
+
 	egtsSendPacket := egts.Package{
 		ProtocolVersion:  1,
 		SecurityKeyID:    0,
@@ -114,11 +124,11 @@ func main() {
 						SubrecordType: 16,
 						SubrecordData: &egts.SrPosData{
 							NavigationTime:      timestamp,
-							Latitude:            lat,
-							Longitude:           lon,
+							Latitude:            math.Abs(lat),
+							Longitude:           math.Abs(lon),
 							ALTE:                "1",
-							LOHS:                "0",
-							LAHS:                "0",
+							LOHS:                lohs,
+							LAHS:                lahs,
 							MV:                  "1",
 							BB:                  "1",
 							CS:                  "0",
-- 
2.43.0


From 92d1fc4a91348241d9063d0e3ccae32ab585f388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 19/29] fix: packet-gen reads the whole ack however it is split
 in transit

---
 cli/packet-gen/main.go | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 0ed976a..758d0f9 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -1,9 +1,11 @@
 package main
 
 import (
+	"encoding/binary"
 	"flag"
 	"fmt"
 	"github.com/kuznetsovin/egts-protocol/libs/egts"
+	"io"
 	"math"
 	"net"
 	"os"
@@ -184,17 +186,15 @@ func main() {
 		os.Exit(1)
 	}
 
-	ackBuf := make([]byte, 1024)
-
 	_ = conn.SetReadDeadline(time.Now().Add(time.Duration(ackTimeout) * time.Second))
-	ackLen, err := conn.Read(ackBuf)
+	ackBuf, err := readPacket(conn)
 	if err != nil {
 		fmt.Println("Read from server failed:", err)
 		os.Exit(1)
 	}
 
 	ackPacket := egts.Package{}
-	_, err = ackPacket.Decode(ackBuf[:ackLen])
+	_, err = ackPacket.Decode(ackBuf)
 	if err != nil {
 		fmt.Println("Parse ack packet failed:", err)
 		os.Exit(1)
@@ -232,3 +232,24 @@ func main() {
 
 	fmt.Println("Packet sent and processed correct")
 }
+
+// readPacket reads one packet, its length is known from the header
+func readPacket(r io.Reader) ([]byte, error) {
+	header := make([]byte, 10)
+	if _, err := io.ReadFull(r, header); err != nil {
+		return nil, err
+	}
+
+	length := int(header[3])
+	if bodyLength := int(binary.LittleEndian.Uint16(header[5:7])); bodyLength > 0 {
+		length += bodyLength + 2
+	}
+	if length < len(header) {
+		return nil, fmt.Errorf("incorrect packet length: %d", length)
+	}
+
+	packet := make([]byte, length)
+	copy(packet, header)
+	_, err := io.ReadFull(r, packet[len(header):])
+	return packet, err
+}
-- 
2.43.0


From 4d1c61df6bf047aff1371faf540967bf50881670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:27 +0000
Subject: [PATCH 20/29] fix: packet-gen accepts an ack without record
 confirmations

---
 cli/packet-gen/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/packet-gen/main.go b/cli/packet-gen/main.go
index 758d0f9..36f9de9 100644
--- a/cli/packet-gen/main.go
+++ b/cli/packet-gen/main.go
@@ -217,7 +217,11 @@ func main() {
 		os.Exit(1)
 	}
 
-	for _, rec := range *ack.SDR.(*egts.ServiceDataSet) {
+	records, ok := ack.SDR.(*egts.ServiceDataSet)
+	if !ok {
+		records = &egts.ServiceDataSet{}
+	}
+	for _, rec := range *records {
 		for _, subRec := range rec.RecordDataSet {
 			if subRec.SubrecordType == egts.SrRecordResponseType {
 				if response, ok := subRec.SubrecordData.(*egts.SrResponse); ok {
-- 
2.43.0


From 1e0a4844fa6433a9b216a17c99b769d08a396292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:16 +0000
Subject: [PATCH 21/29] fix: decode the second counter of EGTS_SR_COUNTERS_DATA
 into its own field

---
 libs/egts/egts_sr_counters_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index ebae25d..454cdc0 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -65,7 +65,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
-		c.Counter1 = binary.LittleEndian.Uint32(counterVal)
+		c.Counter2 = binary.LittleEndian.Uint32(counterVal)
 	}
 
 	if c.CounterFieldExists3 == "1" {
-- 
2.43.0


From faa663cd805f1dc676e0015cf22b0d33976b7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:18 +0000
Subject: [PATCH 22/29] fix: encode the presence flags of analog sensors in the
 order Decode reads them

---
 libs/egts/egts_sr_ad_sensors_data.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 2b7f651..85fa38c 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -234,14 +234,14 @@ func (e *SrAdSensorsData) Encode() ([]byte, error) {
 		return result, fmt.Errorf("Не удалось записать битовые флаги дискретных выходов: %v", err)
 	}
 
-	flagsBits = e.AnalogSensorFieldExists1 +
-		e.AnalogSensorFieldExists2 +
-		e.AnalogSensorFieldExists3 +
-		e.AnalogSensorFieldExists4 +
-		e.AnalogSensorFieldExists5 +
-		e.AnalogSensorFieldExists6 +
+	flagsBits = e.AnalogSensorFieldExists8 +
 		e.AnalogSensorFieldExists7 +
-		e.AnalogSensorFieldExists8
+		e.AnalogSensorFieldExists6 +
+		e.AnalogSensorFieldExists5 +
+		e.AnalogSensorFieldExists4 +
+		e.AnalogSensorFieldExists3 +
+		e.AnalogSensorFieldExists2 +
+		e.AnalogSensorFieldExists1
 
 	if flags, err = strconv.ParseUint(flagsBits, 2, 8); err != nil {
 		return result, fmt.Errorf("Не удалось сгенерировать байт байт аналоговых выходов ad_sesor_data: %v", err)
-- 
2.43.0


From 26fc6577a01f8ee4697d4ce241f5a1daec1f14a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:18 +0000
Subject: [PATCH 23/29] fix: the altitude of EGTS_SR_POS_DATA is three bytes
 long

---
 libs/egts/egts_sr_pos_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 3f823db..1ddd9c4 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -119,7 +119,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf); err != nil {
+		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
-- 
2.43.0


From 18cfad8dd2b3be95177f1de80ea7c69bcf24b3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:48 +0000
Subject: [PATCH 24/29] fix: encode module data and dispatcher identity without
 an explicit subrecord type

---
 libs/egts/record_data.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index 51ecd9e..c16a986 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -107,6 +107,10 @@ func (rds *RecordDataSet) Encode() ([]byte, error) {
 				rd.SubrecordType = SrPosDataType
 			case *SrTermIdentity:
 				rd.SubrecordType = SrTermIdentityType
+			case *SrModuleData:
+				rd.SubrecordType = SrModuleDataType
+			case *SrDispatcherIdentity:
+				rd.SubrecordType = SrDispatcherIdentityType
 			case *SrResponse:
 				rd.SubrecordType = SrRecordResponseType
 			case *SrResultCode:
-- 
2.43.0


From f75f30aa15df4082ea3e0575e01354139e8cc812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:49 +0000
Subject: [PATCH 25/29] fix: Encode refuses a body that does not fit the packet
 length field

---
 libs/egts/egts_pkg.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index ba0f93e..57213c7 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 )
 
@@ -237,6 +238,10 @@ func (p *Package) Encode(opt ...func(*Options)) ([]byte, error) {
 			}
 		}
 	}
+	// длина тела передаётся двумя байтами
+	if len(sfrd) > math.MaxUint16 {
+		return result, fmt.Errorf("Тело пакета слишком велико: %d", len(sfrd))
+	}
 	p.FrameDataLength = uint16(len(sfrd))
 	if err = binary.Write(buf, binary.LittleEndian, p.FrameDataLength); err != nil {
 		return result, fmt.Errorf("Не удалось записать длину секции данных: %v", err)
-- 
2.43.0


From 89296d84dce295cbb4c8a949c9d4349f302da262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:39 +0000
Subject: [PATCH 26/29] fix: Decode reports a packet whose checksum is cut
 short

---
 libs/egts/egts_pkg.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libs/egts/egts_pkg.go b/libs/egts/egts_pkg.go
index 57213c7..c6cbab8 100644
--- a/libs/egts/egts_pkg.go
+++ b/libs/egts/egts_pkg.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"encoding/json"
 	"fmt"
+	"io"
 	"math"
 	"strconv"
 )
@@ -161,7 +162,7 @@ func (p *Package) Decode(content []byte, opt ...func(*Options)) (uint8, error) {
 	}
 
 	crcBytes := make([]byte, 2)
-	if _, err = buf.Read(crcBytes); err != nil {
+	if _, err = io.ReadFull(buf, crcBytes); err != nil {
 		return egtsPcDecryptError, fmt.Errorf("Не удалось считать crc16 пакета: %v", err)
 	}
 	p.ServicesFrameDataCheckSum = binary.LittleEndian.Uint16(crcBytes)
-- 
2.43.0


From c657d242a54baffd74cbe5b29e63e748c6bbd673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:39 +0000
Subject: [PATCH 27/29] fix: fields of a subrecord that are cut short are a
 decoding error

The missing bytes of a field that was only partly there were taken as zeros
(or as what the previous field left in the buffer), so that a truncated
subrecord decoded to a wrong value instead of an error.
---
 libs/egts/egts_sr_abs_cntr_data.go       |  3 ++-
 libs/egts/egts_sr_ad_sensors_data.go     | 17 +++++++++--------
 libs/egts/egts_sr_counters_data.go       | 17 +++++++++--------
 libs/egts/egts_sr_dispatcher_identity.go |  3 ++-
 libs/egts/egts_sr_ext_pos_data.go        |  9 +++++----
 libs/egts/egts_sr_liquid_level_sensor.go |  5 +++--
 libs/egts/egts_sr_pos_data.go            |  3 ++-
 libs/egts/egts_sr_term_identity.go       | 17 +++++++++--------
 8 files changed, 41 insertions(+), 33 deletions(-)

diff --git a/libs/egts/egts_sr_abs_cntr_data.go b/libs/egts/egts_sr_abs_cntr_data.go
index 6976c0f..00ee94d 100644
--- a/libs/egts/egts_sr_abs_cntr_data.go
+++ b/libs/egts/egts_sr_abs_cntr_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 //SrAbsCntrData структура подзаписи типа EGTS_SR_ABS_CNTR_DATA, которая применяется
@@ -26,7 +27,7 @@ func (e *SrAbsCntrData) Decode(content []byte) error {
 	}
 
 	tmpBuf := make([]byte, 3)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить значение показаний счетного входа: %v", err)
 	}
 
diff --git a/libs/egts/egts_sr_ad_sensors_data.go b/libs/egts/egts_sr_ad_sensors_data.go
index 85fa38c..631cae4 100644
--- a/libs/egts/egts_sr_ad_sensors_data.go
+++ b/libs/egts/egts_sr_ad_sensors_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -138,7 +139,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if e.AnalogSensorFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS1: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -146,7 +147,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS2: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -154,7 +155,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS3: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -162,7 +163,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS4: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -170,7 +171,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS5: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -178,7 +179,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS6: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -186,7 +187,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS7: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
@@ -194,7 +195,7 @@ func (e *SrAdSensorsData) Decode(content []byte) error {
 	}
 
 	if e.AnalogSensorFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания ANS8: %v", err)
 		}
 		analogSensVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_counters_data.go b/libs/egts/egts_sr_counters_data.go
index 454cdc0..1aa445a 100644
--- a/libs/egts/egts_sr_counters_data.go
+++ b/libs/egts/egts_sr_counters_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -53,7 +54,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 
 	tmpBuf := make([]byte, 3)
 	if c.CounterFieldExists1 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN1: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -61,7 +62,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists2 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN2: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -69,7 +70,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists3 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN3: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -77,7 +78,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists4 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN4: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -85,7 +86,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists5 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN5: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -93,7 +94,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists6 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN6: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -101,7 +102,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists7 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN7: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
@@ -109,7 +110,7 @@ func (c *SrCountersData) Decode(content []byte) error {
 	}
 
 	if c.CounterFieldExists8 == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить показания CN8: %v", err)
 		}
 		counterVal = append(tmpBuf, 0x00)
diff --git a/libs/egts/egts_sr_dispatcher_identity.go b/libs/egts/egts_sr_dispatcher_identity.go
index 0eb5f33..6327246 100644
--- a/libs/egts/egts_sr_dispatcher_identity.go
+++ b/libs/egts/egts_sr_dispatcher_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 )
 
 // SrDispatcherIdentity структура подзаписи типа EGTS_SR_DISPATCHER_IDENTITY, которая используется
@@ -26,7 +27,7 @@ func (d *SrDispatcherIdentity) Decode(content []byte) error {
 	}
 
 	tmpIntBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpIntBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 		return fmt.Errorf("Не удалось получить уникальный идентификатор диспетчера: %v", err)
 	}
 	d.DispatcherID = binary.LittleEndian.Uint32(tmpIntBuf)
diff --git a/libs/egts/egts_sr_ext_pos_data.go b/libs/egts/egts_sr_ext_pos_data.go
index f2ea748..b7ab165 100644
--- a/libs/egts/egts_sr_ext_pos_data.go
+++ b/libs/egts/egts_sr_ext_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -44,21 +45,21 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	e.VdopFieldExists = flagBits[7:]
 
 	if e.VdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в вертикальной плоскости: %v", err)
 		}
 		e.VerticalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.HdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности в горизонтальной плоскости: %v", err)
 		}
 		e.HorizontalDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
 	}
 
 	if e.PdopFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить снижение точности по местоположению: %v", err)
 		}
 		e.PositionDilutionOfPrecision = binary.LittleEndian.Uint16(tmpBuf)
@@ -71,7 +72,7 @@ func (e *SrExtPosData) Decode(content []byte) error {
 	}
 
 	if e.NavigationSystemFieldExists == "1" {
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить битовые флаги спутниковых систем: %v", err)
 		}
 		e.NavigationSystem = binary.LittleEndian.Uint16(tmpBuf)
diff --git a/libs/egts/egts_sr_liquid_level_sensor.go b/libs/egts/egts_sr_liquid_level_sensor.go
index 2df3469..dc346f6 100644
--- a/libs/egts/egts_sr_liquid_level_sensor.go
+++ b/libs/egts/egts_sr_liquid_level_sensor.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -42,13 +43,13 @@ func (e *SrLiquidLevelSensor) Decode(content []byte) error {
 	e.LiquidLevelSensorNumber = uint8(sensNum)
 
 	bytesTmpBuf := make([]byte, 2)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить адрес модуля ДУЖ: %v", err)
 	}
 	e.ModuleAddress = binary.LittleEndian.Uint16(bytesTmpBuf)
 
 	bytesTmpBuf = make([]byte, 4)
-	if _, err = buf.Read(bytesTmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, bytesTmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить показания ДУЖ: %v", err)
 	}
 	e.LiquidLevelSensorData = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_pos_data.go b/libs/egts/egts_sr_pos_data.go
index 1ddd9c4..d3b8349 100644
--- a/libs/egts/egts_sr_pos_data.go
+++ b/libs/egts/egts_sr_pos_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -119,7 +120,7 @@ func (e *SrPosData) Decode(content []byte) error {
 
 	if e.ALTE == "1" {
 		bytesTmpBuf = []byte{0, 0, 0, 0}
-		if _, err = buf.Read(bytesTmpBuf[:3]); err != nil {
+		if _, err = io.ReadFull(buf, bytesTmpBuf[:3]); err != nil {
 			return fmt.Errorf("Не удалось получить высоту над уровнем моря: %v", err)
 		}
 		e.Altitude = binary.LittleEndian.Uint32(bytesTmpBuf)
diff --git a/libs/egts/egts_sr_term_identity.go b/libs/egts/egts_sr_term_identity.go
index ad9b33f..19d4acd 100644
--- a/libs/egts/egts_sr_term_identity.go
+++ b/libs/egts/egts_sr_term_identity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 )
 
@@ -37,7 +38,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 	buf := bytes.NewReader(content)
 
 	tmpBuf := make([]byte, 4)
-	if _, err = buf.Read(tmpBuf); err != nil {
+	if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 		return fmt.Errorf("Не удалось получить идентификатор терминал при авторизации")
 	}
 	e.TerminalIdentifier = binary.LittleEndian.Uint32(tmpBuf)
@@ -57,7 +58,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.HDIDE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить идентификатор «домашней» телематической платформы при авторизации")
 		}
 		e.HomeDispatcherIdentifier = binary.LittleEndian.Uint16(tmpBuf)
@@ -66,7 +67,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMEIE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMEI при авторизации")
 		}
 		e.IMEI = string(tmpBuf)
@@ -74,7 +75,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.IMSIE == "1" {
 		tmpBuf = make([]byte, 16)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить IMSI при авторизации")
 		}
 		e.IMSI = string(tmpBuf)
@@ -82,7 +83,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.LNGCE == "1" {
 		tmpBuf = make([]byte, 3)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить код языка при авторизации")
 		}
 		e.LanguageCode = string(tmpBuf)
@@ -90,14 +91,14 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.NIDE == "1" {
 		e.NetworkIdentifier = make([]byte, 3)
-		if _, err = buf.Read(e.NetworkIdentifier); err != nil {
+		if _, err = io.ReadFull(buf, e.NetworkIdentifier); err != nil {
 			return fmt.Errorf("Не удалось получить код идентификатор сети оператора при авторизации")
 		}
 	}
 
 	if e.BSE == "1" {
 		tmpBuf = make([]byte, 2)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить максимальный размер буфера при авторизации")
 		}
 		e.BufferSize = binary.LittleEndian.Uint16(tmpBuf)
@@ -105,7 +106,7 @@ func (e *SrTermIdentity) Decode(content []byte) error {
 
 	if e.MNE == "1" {
 		tmpBuf = make([]byte, 15)
-		if _, err = buf.Read(tmpBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpBuf); err != nil {
 			return fmt.Errorf("Не удалось получить телефонный номер мобильного абонента")
 		}
 		e.MobileNumber = string(tmpBuf)
-- 
2.43.0


From 208f04e050cb1807df4beae2bfe54cd48b0abe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:03 +0000
Subject: [PATCH 28/29] fix: records and subrecords shorter than their length
 are a decoding error

The missing bytes of a record were taken as zeros and a subrecord whose length
goes beyond its record was decoded from what was left, so that a truncated
body with a matching checksum was stored and confirmed.
---
 libs/egts/record_data.go          | 6 +++++-
 libs/egts/service_data_records.go | 5 +++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/egts/record_data.go b/libs/egts/record_data.go
index c16a986..32662ea 100644
--- a/libs/egts/record_data.go
+++ b/libs/egts/record_data.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	log "github.com/sirupsen/logrus"
 )
@@ -31,11 +32,14 @@ func (rds *RecordDataSet) Decode(recDS []byte) error {
 		}
 
 		tmpIntBuf := make([]byte, 2)
-		if _, err = buf.Read(tmpIntBuf); err != nil {
+		if _, err = io.ReadFull(buf, tmpIntBuf); err != nil {
 			return fmt.Errorf("Не удалось получить длину записи subrecord data: %v", err)
 		}
 		rd.SubrecordLength = binary.LittleEndian.Uint16(tmpIntBuf)
 
+		if buf.Len() < int(rd.SubrecordLength) {
+			return fmt.Errorf("Подзапись %d короче указанной длины: %d", rd.SubrecordType, rd.SubrecordLength)
+		}
 		subRecordBytes := buf.Next(int(rd.SubrecordLength))
 
 		switch rd.SubrecordType {
diff --git a/libs/egts/service_data_records.go b/libs/egts/service_data_records.go
index 60ed468..d94960e 100644
--- a/libs/egts/service_data_records.go
+++ b/libs/egts/service_data_records.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 	"strconv"
 	"time"
 )
@@ -104,8 +105,8 @@ func (s *ServiceDataSet) Decode(serviceDS []byte) error {
 		if buf.Len() != 0 {
 			rds := RecordDataSet{}
 			rdsBytes := make([]byte, sdr.RecordLength)
-			if _, err = buf.Read(rdsBytes); err != nil {
-				return err
+			if _, err = io.ReadFull(buf, rdsBytes); err != nil {
+				return fmt.Errorf("не удалось считать подзаписи SDR: %v", err)
 			}
 
 			if err = rds.Decode(rdsBytes); err != nil {
-- 
2.43.0


From c9cca42f03a8bacbf76afb936a31b2cb4d58f967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 29/29] fix: the NATS storage keeps reconnecting however long
 the broker is away

---
 cli/receiver/storage/store/nats/connector.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/receiver/storage/store/nats/connector.go b/cli/receiver/storage/store/nats/connector.go
index 54a6dab..7f362e9 100644
--- a/cli/receiver/storage/store/nats/connector.go
+++ b/cli/receiver/storage/store/nats/connector.go
@@ -32,6 +32,8 @@ func (c *Connector) Init(cfg map[string]string) error {
 	var options = make([]natsLib.Option, 3)
 
 	options = append(options, natsLib.Name(fmt.Sprintf("EGTS handler, topic: %s", c.config["topic"])))
+	// после долгой недоступности шины соединение тоже должно восстановиться
+	options = append(options, natsLib.MaxReconnects(-1))
 
 	if user, uOk := c.config["user"]; uOk {
 		if password, pOk := c.config["password"]; pOk {
-- 
2.43.0

