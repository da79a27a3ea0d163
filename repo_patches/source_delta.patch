From 7400d051017a5751739a6edb5e26e771ccf8c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 01/55] fix: decode JSON times outside the range of nanosecond
 timestamps

time.Unix(0, ms*1e6) overflows for times before 1678 and after 2262, among
them the zero time.
---
 timeext.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/timeext.go b/timeext.go
index 7326ae5..5b10679 100644
--- a/timeext.go
+++ b/timeext.go
@@ -15,5 +15,5 @@ func (x *TimeExt) ConvertExt(v interface{}) interface{} {
 func (x *TimeExt) UpdateExt(dest interface{}, src interface{}) {
 	tt := dest.(*time.Time) //nolint:forcetypeassert
 
-	*tt = time.Unix(0, src.(int64)*int64(time.Millisecond)).Local() //nolint:forcetypeassert
+	*tt = time.UnixMilli(src.(int64)).Local() //nolint:forcetypeassert
 }
-- 
2.43.0


From 42d9d277d762e969971c8f69a25e0d198a0b2307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 02/55] fix: keep the results of a call when they are encoded

The msgpack reply hook replaced errors in the caller's slice, so call stats
reported the type *gotsrpc.Error, lost custom error codes, and the monitor
hook saw converted errors.
---
 gotsrpc.go   |  7 +++++--
 transport.go | 13 ++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 01345a7..3da2106 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -95,15 +95,18 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 
 	w.Header().Set("Content-Type", clientHandle.contentType)
 
+	encodedResponse := response
 	if clientHandle.beforeEncodeReply != nil {
-		if err := clientHandle.beforeEncodeReply(&response); err != nil {
+		if value, err := clientHandle.beforeEncodeReply(response); err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err.Error())
 			return errors.Wrap(err, "error during before encoder reply")
+		} else {
+			encodedResponse = value
 		}
 	}
 
 	buf := new(bytes.Buffer)
-	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(response); err != nil {
+	if err := codec.NewEncoder(buf, clientHandle.handle).Encode(encodedResponse); err != nil {
 		_, _ = fmt.Fprintln(os.Stderr, err.Error())
 		return errors.Wrap(err, "could not encode data to accepted format")
 	}
diff --git a/transport.go b/transport.go
index 8ea7d95..3967b8a 100644
--- a/transport.go
+++ b/transport.go
@@ -21,7 +21,7 @@ var errorType = reflect.TypeOf((*error)(nil)).Elem()
 type clientHandle struct {
 	handle            codec.Handle
 	contentType       string
-	beforeEncodeReply func(*[]interface{}) error
+	beforeEncodeReply func([]interface{}) ([]interface{}, error)
 	beforeDecodeReply func([]interface{}) ([]interface{}, error)
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
 }
@@ -30,15 +30,18 @@ var msgpackClientHandle = &clientHandle{
 	contentType: "application/msgpack; charset=utf-8",
 	handle:      &codec.MsgpackHandle{},
 	// transform error type to sth that is transportable
-	beforeEncodeReply: func(resp *[]interface{}) error {
-		for k, v := range *resp {
+	beforeEncodeReply: func(resp []interface{}) ([]interface{}, error) {
+		ret := make([]interface{}, len(resp))
+		for k, v := range resp {
 			if e, ok := v.(error); ok {
 				if r := reflect.ValueOf(e); !r.IsZero() {
-					(*resp)[k] = NewError(e)
+					ret[k] = NewError(e)
+					continue
 				}
 			}
+			ret[k] = v
 		}
-		return nil
+		return ret, nil
 	},
 	beforeDecodeReply: func(reply []interface{}) ([]interface{}, error) {
 		ret := make([]interface{}, len(reply))
-- 
2.43.0


From f81a11afaa735ee5b495ccdbad576229c626a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:26 +0000
Subject: [PATCH 03/55] fix: transport errors whose value is the zero value of
 their type

An error is only missing when it is nil or a nil pointer. Value types such as
syscall.Errno(0) or an empty struct implementing error got lost.
---
 gotsrpc.go   |  3 +--
 transport.go | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 3da2106..8d9e50c 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -12,7 +12,6 @@ import (
 	"os"
 	"path"
 	"path/filepath"
-	"reflect"
 	"sort"
 	"strconv"
 	"strings"
@@ -123,7 +122,7 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 		if len(response) > 0 {
 			errResp := response[len(response)-1]
 			if v, ok := errResp.(error); ok && v != nil {
-				if !reflect.ValueOf(v).IsZero() {
+				if !isNilError(v) {
 					stats.ErrorCode = 1
 					stats.ErrorType = fmt.Sprintf("%T", v)
 					stats.ErrorMessage = v.Error()
diff --git a/transport.go b/transport.go
index 3967b8a..3cae98b 100644
--- a/transport.go
+++ b/transport.go
@@ -26,6 +26,19 @@ type clientHandle struct {
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
 }
 
+// isNilError tells if the given error is nil or a nil pointer of a concrete error type
+func isNilError(err error) bool {
+	if err == nil {
+		return true
+	}
+	switch v := reflect.ValueOf(err); v.Kind() { //nolint:exhaustive
+	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Func, reflect.Chan:
+		return v.IsNil()
+	default:
+		return false
+	}
+}
+
 var msgpackClientHandle = &clientHandle{
 	contentType: "application/msgpack; charset=utf-8",
 	handle:      &codec.MsgpackHandle{},
@@ -34,7 +47,7 @@ var msgpackClientHandle = &clientHandle{
 		ret := make([]interface{}, len(resp))
 		for k, v := range resp {
 			if e, ok := v.(error); ok {
-				if r := reflect.ValueOf(e); !r.IsZero() {
+				if !isNilError(e) {
 					ret[k] = NewError(e)
 					continue
 				}
-- 
2.43.0


From 48665928673d5b4369c284a91bb6817cb11acae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 04/55] fix: send JSON times passed directly as argument or
 result as timestamps

---
 client.go    |  7 +++++++
 transport.go | 21 +++++++++++++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/client.go b/client.go
index 67ee8bf..cc34c12 100644
--- a/client.go
+++ b/client.go
@@ -82,6 +82,13 @@ func (c *bufferedClient) Call(ctx context.Context, url string, endpoint string,
 
 	// If no arguments are set, remove
 	if len(args) > 0 {
+		if c.handle.beforeEncodeArgs != nil {
+			if value, err := c.handle.beforeEncodeArgs(args); err != nil {
+				return NewClientError(errors.Wrap(err, "failed to call beforeEncodeArgs hook"))
+			} else {
+				args = value
+			}
+		}
 		if err := codec.NewEncoder(b, c.handle.handle).Encode(args); err != nil {
 			return NewClientError(errors.Wrap(err, "failed to encode arguments"))
 		}
diff --git a/transport.go b/transport.go
index 3cae98b..052b89c 100644
--- a/transport.go
+++ b/transport.go
@@ -21,6 +21,7 @@ var errorType = reflect.TypeOf((*error)(nil)).Elem()
 type clientHandle struct {
 	handle            codec.Handle
 	contentType       string
+	beforeEncodeArgs  func([]interface{}) ([]interface{}, error)
 	beforeEncodeReply func([]interface{}) ([]interface{}, error)
 	beforeDecodeReply func([]interface{}) ([]interface{}, error)
 	afterDecodeReply  func(*[]interface{}, []interface{}) error
@@ -108,8 +109,24 @@ func init() {
 }
 
 var jsonClientHandle = &clientHandle{
-	handle:      &codec.JsonHandle{},
-	contentType: "application/json; charset=utf-8",
+	handle:            &codec.JsonHandle{},
+	contentType:       "application/json; charset=utf-8",
+	beforeEncodeArgs:  timesForExt,
+	beforeEncodeReply: timesForExt,
+}
+
+// timesForExt wraps times, because the codec does not apply extensions to times that are elements of an interface slice
+func timesForExt(values []interface{}) ([]interface{}, error) {
+	ret := make([]interface{}, len(values))
+	for k, v := range values {
+		switch v.(type) {
+		case time.Time, *time.Time:
+			ret[k] = reflect.ValueOf(v)
+		default:
+			ret[k] = v
+		}
+	}
+	return ret, nil
 }
 
 func NewMSGPackEncoderBytes(b *[]byte) *codec.Encoder {
-- 
2.43.0


From 41e1873235cc9a6c2641be14e2ee42b551f69125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 05/55] fix: HTTPError carries the response body

---
 httperror.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/httperror.go b/httperror.go
index b5b059a..c3ce8ab 100644
--- a/httperror.go
+++ b/httperror.go
@@ -15,6 +15,7 @@ func NewHTTPError(msg string, code int) *HTTPError {
 	return &HTTPError{
 		error:      errors.New(msg),
 		StatusCode: code,
+		Body:       msg,
 	}
 }
 
-- 
2.43.0


From c2742c0a85097a2b37ef7158f7283d9501032905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:04 +0000
Subject: [PATCH 06/55] fix: response writer handles informational, repeated
 and ok statuses

---
 responsewriter.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/responsewriter.go b/responsewriter.go
index 2fca722..2c8cb88 100644
--- a/responsewriter.go
+++ b/responsewriter.go
@@ -11,9 +11,21 @@ type ResponseWriter struct {
 }
 
 func (r *ResponseWriter) WriteHeader(status int) {
+	// informational responses precede the final one
+	if status < http.StatusOK && status != http.StatusSwitchingProtocols {
+		r.ResponseWriter.WriteHeader(status)
+		return
+	}
+	// the first final status is the one that is sent
+	if r.wroteHeader {
+		return
+	}
 	r.status = status
 	r.wroteHeader = true
-	r.ResponseWriter.WriteHeader(status)
+	// with status ok the reply follows, which still adds its headers
+	if status != http.StatusOK {
+		r.ResponseWriter.WriteHeader(status)
+	}
 }
 
 func (r *ResponseWriter) Status() int {
-- 
2.43.0


From 12a2897663945942b8bd0fd4ec04127e366de0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 07/55] fix: keep the argument slice as it is when loading
 arguments

---
 gotsrpc.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gotsrpc.go b/gotsrpc.go
index 8d9e50c..baaa316 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -51,6 +51,11 @@ func LoadArgs(args interface{}, callStats *CallStats, r *http.Request) error {
 	start := time.Now()
 
 	handle := getHandlerForContentType(r.Header.Get("Content-Type")).handle
+	// the decoder truncates, extends and clears the elements of the slice it is given
+	if values, ok := args.(*[]interface{}); ok && values != nil {
+		targets := append([]interface{}{}, *values...)
+		args = &targets
+	}
 	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {
 		_, _ = fmt.Fprintln(os.Stderr, errDecode.Error())
 		return errors.Wrap(errDecode, "could not decode arguments")
-- 
2.43.0


From 8630e41870d87aeaca586cc0f9974a5306b3e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 08/55] fix: decode transported error data with the codec that
 encoded it

---
 error.go     | 27 +++++++++++++++++++++++++--
 transport.go |  4 ++--
 2 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/error.go b/error.go
index 3e7b33a..5c2c198 100644
--- a/error.go
+++ b/error.go
@@ -6,8 +6,8 @@ import (
 	"reflect"
 	"strings"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
+	"github.com/ugorji/go/codec"
 )
 
 type Error struct {
@@ -55,13 +55,36 @@ func NewError(err error) *Error {
 	return inst
 }
 
+// errorDataHandle is the handle errors are transported with
+var errorDataHandle codec.Handle
+
+// decodeErrorData sets the value target points to from transported error data
+func decodeErrorData(data interface{}, target interface{}) error {
+	dst := reflect.ValueOf(target).Elem()
+	if src := reflect.ValueOf(data); src.IsValid() && src.Type().AssignableTo(dst.Type()) {
+		dst.Set(src)
+		return nil
+	}
+	// use the same codec as for the transport, so that names, tags and types match
+	var b []byte
+	if err := codec.NewEncoderBytes(&b, errorDataHandle).Encode(data); err != nil {
+		return err
+	}
+	value := reflect.New(dst.Type())
+	if err := codec.NewDecoderBytes(b, errorDataHandle).Decode(value.Interface()); err != nil {
+		return err
+	}
+	dst.Set(value.Elem())
+	return nil
+}
+
 // As interface
 func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
 	if reflect.TypeOf(err).Elem().String() == e.Type {
-		if decodeErr := mapstructure.Decode(e.Data, &err); decodeErr != nil {
+		if decodeErr := decodeErrorData(e.Data, err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
 		} else {
diff --git a/transport.go b/transport.go
index 052b89c..eafa729 100644
--- a/transport.go
+++ b/transport.go
@@ -4,7 +4,6 @@ import (
 	"reflect"
 	"time"
 
-	"github.com/mitchellh/mapstructure"
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
 )
@@ -78,7 +77,7 @@ var msgpackClientHandle = &clientHandle{
 			if e, ok := v.(*Error); ok && e != nil {
 				if y, ok := (*reply)[k].(*error); ok {
 					*y = e
-				} else if err := mapstructure.Decode(e.Data, (*reply)[k]); err != nil {
+				} else if err := decodeErrorData(e.Data, (*reply)[k]); err != nil {
 					return errors.Wrap(err, "failed to decode wrapped error")
 				}
 			}
@@ -94,6 +93,7 @@ func init() {
 	// attempting to set promoted field in literal will cause a compiler error
 	mh.RawToString = true
 	msgpackClientHandle.handle = mh
+	errorDataHandle = mh
 	// WriteExt is not being called
 	// if err := SetJSONExt(time.Time{}, 2, timeExt); err != nil {
 	// 	 panic(err)
-- 
2.43.0


From e2aa970f286ffb64eb181dfc3f624d42d09c7679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:32 +0000
Subject: [PATCH 09/55] fix: match the package of a transported error when
 converting it

---
 error.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index 5c2c198..2954a0d 100644
--- a/error.go
+++ b/error.go
@@ -83,7 +83,12 @@ func (e *Error) As(err interface{}) bool {
 	if e == nil || err == nil {
 		return false
 	}
-	if reflect.TypeOf(err).Elem().String() == e.Type {
+	errType := reflect.TypeOf(err).Elem()
+	errElem := errType
+	if errType.Kind() == reflect.Ptr {
+		errElem = errType.Elem()
+	}
+	if errType.String() == e.Type && errElem.PkgPath() == e.Pkg {
 		if decodeErr := decodeErrorData(e.Data, err); decodeErr != nil {
 			fmt.Printf("ERROR: failed to decode error data\n%+v", decodeErr)
 			return false
-- 
2.43.0


From 3f1792e5d9270c4e2835f28097a6064205df0f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 10/55] fix: keep the message of errors that wrap a cause in
 other ways than by prefix

---
 error.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/error.go b/error.go
index 2954a0d..a5721eb 100644
--- a/error.go
+++ b/error.go
@@ -16,6 +16,8 @@ type Error struct {
 	Type     string      `json:"t"`
 	Data     interface{} `json:"d,omitempty"`
 	ErrCause *Error      `json:"c,omitempty"`
+	// FullMsg tells that Msg is the complete message and already covers the one of the cause
+	FullMsg bool `json:"f,omitempty"`
 }
 
 // NewError returns a new instance
@@ -49,7 +51,11 @@ func NewError(err error) *Error {
 	// unwrap error
 	if unwrappedErr := errors.Unwrap(err); unwrappedErr != nil {
 		inst.ErrCause = NewError(unwrappedErr)
-		inst.Msg = strings.TrimSuffix(inst.Msg, ": "+unwrappedErr.Error())
+		if suffix := ": " + inst.ErrCause.Error(); strings.HasSuffix(inst.Msg, suffix) {
+			inst.Msg = strings.TrimSuffix(inst.Msg, suffix)
+		} else {
+			inst.FullMsg = true
+		}
 	}
 
 	return inst
@@ -143,7 +149,7 @@ func (e *Error) Is(err error) bool {
 		errElem = errType.Elem()
 	}
 
-	if e.Msg == err.Error() &&
+	if e.Error() == err.Error() &&
 		errType.String() == e.Type &&
 		errElem.PkgPath() == e.Pkg {
 		return true
@@ -155,7 +161,7 @@ func (e *Error) Is(err error) bool {
 // Error interface
 func (e *Error) Error() string {
 	msg := e.Msg
-	if e.ErrCause != nil {
+	if e.ErrCause != nil && !e.FullMsg {
 		msg += ": " + e.ErrCause.Error()
 	}
 	return msg
-- 
2.43.0


From e9f25aca6044c8a604909489ca46ce8f67288207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:07 +0000
Subject: [PATCH 11/55] fix: allow to instrument several services

---
 prometheus/prometheus.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index 6cb2862..de99a88 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -1,6 +1,7 @@
 package prometheus
 
 import (
+	"errors"
 	"net/http"
 
 	p "github.com/prometheus/client_golang/prometheus"
@@ -8,6 +9,20 @@ import (
 	"github.com/foomo/gotsrpc/v2"
 )
 
+// register returns the given collector, or the equal one, that is already registered for another service
+func register(c *p.SummaryVec) *p.SummaryVec {
+	if err := p.Register(c); err != nil {
+		var registered p.AlreadyRegisteredError
+		if errors.As(err, &registered) {
+			if v, ok := registered.ExistingCollector.(*p.SummaryVec); ok {
+				return v
+			}
+		}
+		panic(err)
+	}
+	return c
+}
+
 func InstrumentService(s http.HandlerFunc) (handler http.HandlerFunc) {
 	requestDuration := p.NewSummaryVec(p.SummaryOpts{ //nolint:promlinter
 		Namespace:  "gotsrpc",
@@ -24,8 +39,8 @@ func InstrumentService(s http.HandlerFunc) (handler http.HandlerFunc) {
 		Objectives: map[float64]float64{0.5: 0.05, 0.9: 0.01, 0.99: 0.001},
 	}, []string{"package", "service", "func", "type"})
 
-	p.MustRegister(requestSize)
-	p.MustRegister(requestDuration)
+	requestSize = register(requestSize)
+	requestDuration = register(requestDuration)
 
 	return gotsrpc.InstrumentedService(s.ServeHTTP, func(stats *gotsrpc.CallStats) {
 		requestSize.WithLabelValues(stats.Package, stats.Service, stats.Func, "request").Observe(float64(stats.RequestSize))
@@ -43,7 +58,7 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 		Name:      "time_seconds",
 		Help:      "seconds to execute a service method",
 	}, []string{"package", "service", "func", "type"})
-	p.MustRegister(callsCounter)
+	callsCounter = register(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
 		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
-- 
2.43.0


From f40d97b411097d61bf5d08236e2a8cac0fbc1f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:08 +0000
Subject: [PATCH 12/55] fix: observe gorpc call times in seconds

---
 prometheus/prometheus.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prometheus/prometheus.go b/prometheus/prometheus.go
index de99a88..80414b0 100644
--- a/prometheus/prometheus.go
+++ b/prometheus/prometheus.go
@@ -61,6 +61,6 @@ func InstrumentGoRPCService() gotsrpc.GoRPCCallStatsHandlerFun {
 	callsCounter = register(callsCounter)
 
 	return func(stats *gotsrpc.CallStats) {
-		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(float64(stats.Execution))
+		callsCounter.WithLabelValues(stats.Package, stats.Service, stats.Func, "execution").Observe(stats.Execution.Seconds())
 	}
 }
-- 
2.43.0


From db8d7ce0d01fa420c4b5a0fbdd14c1c18596c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:33 +0000
Subject: [PATCH 13/55] fix: surplus msgpack arguments do not discard the
 expected ones

---
 gotsrpc.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index baaa316..2ae3f72 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -51,10 +51,9 @@ func LoadArgs(args interface{}, callStats *CallStats, r *http.Request) error {
 	start := time.Now()
 
 	handle := getHandlerForContentType(r.Header.Get("Content-Type")).handle
-	// the decoder truncates, extends and clears the elements of the slice it is given
+	// the decoder clears elements of the slice it is given and replaces a slice, that is too short for the values it reads
 	if values, ok := args.(*[]interface{}); ok && values != nil {
-		targets := append([]interface{}{}, *values...)
-		args = &targets
+		args = append([]interface{}{}, *values...)
 	}
 	if errDecode := codec.NewDecoder(r.Body, handle).Decode(args); errDecode != nil {
 		_, _ = fmt.Fprintln(os.Stderr, errDecode.Error())
-- 
2.43.0


From 302aef47a53cedd411e09b3687cdc0ca034205f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:53 +0000
Subject: [PATCH 14/55] fix: following the causes of an error ends

---
 error.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/error.go b/error.go
index a5721eb..af359c6 100644
--- a/error.go
+++ b/error.go
@@ -110,7 +110,22 @@ func (e *Error) Cause() error {
 	if e.ErrCause != nil {
 		return e.ErrCause
 	}
-	return e
+	return rootCause{err: e}
+}
+
+// rootCause ends the chain for callers that follow causes until there is none
+type rootCause struct {
+	err *Error
+}
+
+// Error interface
+func (r rootCause) Error() string {
+	return r.err.Error()
+}
+
+// Unwrap interface
+func (r rootCause) Unwrap() error {
+	return r.err
 }
 
 // Format interface
-- 
2.43.0


From 4aa0a9b4e4ffc60d62b4b14528f81d862648398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:48 +0000
Subject: [PATCH 15/55] fix: keep the type of a received error that is returned
 with a stack trace

---
 error.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/error.go b/error.go
index af359c6..6bcd2d4 100644
--- a/error.go
+++ b/error.go
@@ -22,11 +22,6 @@ type Error struct {
 
 // NewError returns a new instance
 func NewError(err error) *Error {
-	// check if already transformed
-	if v, ok := err.(*Error); ok { //nolint:errorlint
-		return v
-	}
-
 	// skip *withStack error type
 	if _, ok := err.(interface {
 		StackTrace() errors.StackTrace
@@ -34,6 +29,11 @@ func NewError(err error) *Error {
 		err = errors.Unwrap(err)
 	}
 
+	// check if already transformed
+	if v, ok := err.(*Error); ok { //nolint:errorlint
+		return v
+	}
+
 	// retrieve error details
 	errType := reflect.TypeOf(err)
 	errElem := errType
-- 
2.43.0


From 3914f2668ad57f185151f57cedaf4ec61481319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 16/55] fix: generate the types used in anonymous struct fields

---
 servicereader.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 0349c07..85f2307 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -559,6 +559,14 @@ func needsWorkValue(value *Value, needsWork func(fullName string) bool) bool {
 		if needsWorkValue(value.Map.Key, needsWork) || needsWorkValue(value.Map.Value, needsWork) {
 			return true
 		}
+	case value.Struct != nil:
+		for _, fields := range [][]*Field{value.Struct.Fields, value.Struct.InlineFields, value.Struct.UnionFields} {
+			for _, field := range fields {
+				if needsWorkValue(field.Value, needsWork) {
+					return true
+				}
+			}
+		}
 	}
 	return false
 }
-- 
2.43.0


From 96d02f5a3eff4427636019f55bcab72b6848878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:11 +0000
Subject: [PATCH 17/55] fix: keep the name of interface types in method
 signatures

---
 servicereader.go | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 85f2307..226add5 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -367,8 +367,8 @@ func Read(
 	// fix arg and return field lists
 	for _, service := range services {
 		for _, method := range service.Methods {
-			fixFieldStructs(method.Args, structs, scalars)
-			fixFieldStructs(method.Return, structs, scalars)
+			fixFieldStructs(method.Args, structs)
+			fixFieldStructs(method.Return, structs)
 		}
 	}
 	traceData("---------------------------", services)
@@ -408,20 +408,11 @@ func loadFlatStructsValue(s *Value, flatStructs map[string]bool) {
 		flatStructs[s.Scalar.FullName()] = true
 	}
 }
-func fixFieldStructs(fields []*Field, structs map[string]*Struct, scalars map[string]*Scalar) {
+func fixFieldStructs(fields []*Field, structs map[string]*Struct) {
 	for _, f := range fields {
 		if f.Value.StructType != nil {
-			// do we have that struct or is it a hidden scalar
-			name := f.Value.StructType.FullName()
-			s, strctExists := structs[name]
-			if strctExists {
+			if s, ok := structs[f.Value.StructType.FullName()]; ok {
 				f.Value.IsError = s.IsError
-				continue
-			}
-			scalar, scalarExists := scalars[name]
-			if scalarExists {
-				f.Value.StructType = nil
-				f.Value.Scalar = scalar
 			}
 		}
 	}
-- 
2.43.0


From cf481a1246c69b5f2030ed226064965adc86f585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 18/55] fix: quote TypeScript property names that are not
 identifiers

---
 typescript.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index affc3d4..c47c9e5 100644
--- a/typescript.go
+++ b/typescript.go
@@ -3,7 +3,9 @@ package gotsrpc
 import (
 	"errors"
 	"go/ast"
+	"regexp"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -19,6 +21,17 @@ func (f *Field) tsName() string {
 	return n
 }
 
+var tsIdentifier = regexp.MustCompile(`^[\p{L}_$][\p{L}\p{Nd}_$]*$`)
+
+// tsPropertyName quotes names that are not valid identifiers
+func (f *Field) tsPropertyName() string {
+	n := f.tsName()
+	if tsIdentifier.MatchString(n) {
+		return n
+	}
+	return strconv.Quote(n)
+}
+
 var tsTypeAliases = map[string]string{
 	"time.Time": "number",
 }
@@ -121,7 +134,7 @@ func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, sca
 		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
 			continue
 		}
-		ts.app(f.tsName())
+		ts.app(f.tsPropertyName())
 		if f.JSONInfo != nil && f.JSONInfo.OmitEmpty {
 			ts.app("?")
 		}
-- 
2.43.0


From 5b64c1fec800b03a29ae6346ebf5690dd3fcc7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 19/55] fix: slices and maps named in other packages can be
 null in TypeScript

---
 typescript.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index c47c9e5..872bce7 100644
--- a/typescript.go
+++ b/typescript.go
@@ -76,7 +76,9 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 				tsType = value
 			}
 			ts.app(tsType)
-			if v.IsPtr && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
+			hiddenStruct, isHiddenStruct := structs[v.Scalar.FullName()]
+			isNil := v.IsPtr || (isHiddenStruct && (hiddenStruct.Array != nil || hiddenStruct.Map != nil))
+			if isNil && (jsonInfo == nil || !jsonInfo.OmitEmpty) {
 				ts.app("|null")
 			}
 			return
-- 
2.43.0


From cf5cda2a9b87d292188f3b0bf169ecdfdd6a0dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 20/55] fix: only byte slices are strings in TypeScript

---
 typescript.go | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/typescript.go b/typescript.go
index 872bce7..3f6349d 100644
--- a/typescript.go
+++ b/typescript.go
@@ -54,13 +54,7 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 			ts.app("|null")
 		}
 	case v.Array != nil:
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app("Array<")
-		}
-		v.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		if v.Array.Value.ScalarType != ScalarTypeByte {
-			ts.app(">")
-		}
+		v.Array.tsType(mappings, scalars, structs, ts)
 		if jsonInfo == nil || !jsonInfo.OmitEmpty {
 			ts.app("|null")
 		}
@@ -119,10 +113,21 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 	}
 }
 
+// tsType of slices, bytes are sent as a string
+func (a *Array) tsType(mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	if !a.Value.IsPtr && (a.Value.GoScalarType == "byte" || a.Value.GoScalarType == "uint8") {
+		ts.app("string")
+		return
+	}
+	ts.app("Array<")
+	a.Value.tsType(mappings, scalars, structs, ts, nil)
+	ts.app(">")
+}
+
 func tsTypeFromScalarType(scalarType ScalarType) string {
 	switch scalarType { //nolint:exhaustive
 	case ScalarTypeByte:
-		return "string"
+		return "number"
 	case ScalarTypeBool:
 		return "boolean"
 	}
@@ -151,9 +156,8 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	ts.l("// " + str.FullName())
 	switch {
 	case str.Array != nil:
-		ts.app("export type " + str.Name + " = Array<")
-		str.Array.Value.tsType(mappings, scalars, structs, ts, nil)
-		ts.app(">")
+		ts.app("export type " + str.Name + " = ")
+		str.Array.tsType(mappings, scalars, structs, ts)
 		ts.nl()
 	case str.Map != nil:
 		ts.app("export type " + str.Name + " = Record<")
-- 
2.43.0


From 58ba8f0fabfa1ce6a8b9dbc70092042fda6b25a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:11 +0000
Subject: [PATCH 21/55] fix: rune and uintptr are numbers in TypeScript

---
 servicereader.go | 2 +-
 typereader.go    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 226add5..3f785d1 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -217,7 +217,7 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 									constantTypes[spec.Name.Name] = "boolean"
 								case "float", "float32", "float64",
 									"int", "int8", "int16", "int32", "int64",
-									"uint", "uint8", "uint16", "uint32", "uint64":
+									"uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "rune":
 									constantTypes[spec.Name.Name] = "number"
 								default:
 									trace("unhandled type", reflect.ValueOf(spec.Type).Type().String())
diff --git a/typereader.go b/typereader.go
index 04c34a4..f053b81 100644
--- a/typereader.go
+++ b/typereader.go
@@ -132,7 +132,7 @@ func getScalarFromAstIdent(ident *ast.Ident) ScalarType {
 		return ScalarTypeByte
 	case "float", "float32", "float64",
 		"int", "int8", "int16", "int32", "int64",
-		"uint", "uint8", "uint16", "uint32", "uint64":
+		"uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "rune":
 		return ScalarTypeNumber
 	default:
 		if ident.Obj != nil && ident.Obj.Decl != nil && reflect.ValueOf(ident.Obj.Decl).Type().String() == "*ast.TypeSpec" {
-- 
2.43.0


From 68ff3b1a7dd88badd0004c6d414f2507c5a77a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:38 +0000
Subject: [PATCH 22/55] fix: unions of structs of other packages are no unions
 of constants

---
 typescript.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index 3f6349d..4ec4495 100644
--- a/typescript.go
+++ b/typescript.go
@@ -175,8 +175,13 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 		if len(str.Fields) > 0 || len(str.InlineFields) > 0 {
 			return errors.New("no fields or inline fields are supported when using union")
 		}
+		isStructUnion := str.UnionFields[0].Value.StructType != nil
+		if scalar := str.UnionFields[0].Value.Scalar; scalar != nil {
+			// structs of other packages are read as scalars
+			_, isStructUnion = structs[scalar.FullName()]
+		}
 		switch {
-		case str.UnionFields[0].Value.StructType != nil:
+		case isStructUnion:
 			ts.app("export type " + str.Name + " = ")
 			var isUndefined bool
 			for i, unionField := range str.UnionFields {
-- 
2.43.0


From e30b9e31df262a0f5afc304047d85ba9b68680ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:49 +0000
Subject: [PATCH 23/55] fix: embedded structs with a JSON name are properties
 in TypeScript

---
 typescript.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index 4ec4495..976b09c 100644
--- a/typescript.go
+++ b/typescript.go
@@ -136,7 +136,7 @@ func tsTypeFromScalarType(scalarType ScalarType) string {
 
 func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	for _, f := range fields {
-		if len(f.Name) == 0 {
+		if len(f.tsName()) == 0 {
 			continue
 		} else if f.JSONInfo != nil && f.JSONInfo.Ignore {
 			continue
-- 
2.43.0


From 1a759288c836273ff0569bccbc7f95d0c4ee1727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:51 +0000
Subject: [PATCH 24/55] fix: anonymous structs have the fields of embedded
 structs in TypeScript

---
 typescript.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/typescript.go b/typescript.go
index 976b09c..4695d7e 100644
--- a/typescript.go
+++ b/typescript.go
@@ -97,6 +97,10 @@ func (v *Value) tsType(mappings config.TypeScriptMappings, scalars map[string]*S
 		ts.app(v.StructType.Name)
 	case v.Struct != nil:
 		// v.Struct.Value.tsType(mappings, ts)
+		for _, inlineField := range v.Struct.InlineFields {
+			renderInlineField(inlineField, mappings, scalars, structs, ts)
+			ts.app(" & ")
+		}
 		ts.l("{").ind(1)
 		renderStructFields(v.Struct.Fields, mappings, scalars, structs, ts)
 		ts.ind(-1).app("}")
@@ -134,6 +138,16 @@ func tsTypeFromScalarType(scalarType ScalarType) string {
 	return string(scalarType)
 }
 
+func renderInlineField(inlineField *Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
+	if inlineField.Value.IsPtr {
+		ts.app("Partial<")
+	}
+	inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
+	if inlineField.Value.IsPtr {
+		ts.app(">")
+	}
+}
+
 func renderStructFields(fields []*Field, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) {
 	for _, f := range fields {
 		if len(f.tsName()) == 0 {
@@ -220,13 +234,7 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 			if i > 0 {
 				ts.app(", ")
 			}
-			if inlineField.Value.IsPtr {
-				ts.app("Partial<")
-			}
-			inlineField.Value.tsType(mappings, scalars, structs, ts, &JSONInfo{OmitEmpty: true})
-			if inlineField.Value.IsPtr {
-				ts.app(">")
-			}
+			renderInlineField(inlineField, mappings, scalars, structs, ts)
 			ts.app(" ")
 		}
 		ts.app("{")
-- 
2.43.0


From adfabec3802d3efb481c927b4afcd827ad200baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 25/55] fix: generate listed types if the first target has no
 TypeScript output

---
 build.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/build.go b/build.go
index efcf0f7..aac9903 100644
--- a/build.go
+++ b/build.go
@@ -75,23 +75,23 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 	}
 	sort.Strings(names)
 
-	missingTypes := map[string]bool{}
-	for _, mapping := range conf.Mappings {
-		for _, include := range mapping.Structs {
-			missingTypes[include] = true
-		}
-	}
-
-	missingConstants := map[string]bool{}
-	for _, mapping := range conf.Mappings {
-		for _, include := range mapping.Scalars {
-			missingConstants[include] = true
-		}
-	}
-
 	for _, name := range names {
 		target := conf.Targets[name]
 
+		// listed types are generated along with the TypeScript of every target
+		missingTypes := map[string]bool{}
+		missingConstants := map[string]bool{}
+		if target.Out != "" {
+			for _, mapping := range conf.Mappings {
+				for _, include := range mapping.Structs {
+					missingTypes[include] = true
+				}
+				for _, include := range mapping.Scalars {
+					missingConstants[include] = true
+				}
+			}
+		}
+
 		packageName := target.Package
 		outputPath := getPathForTarget(conf.Module, goPath, target)
 		_, _ = fmt.Fprintf(os.Stderr, "building target %s (%s -> %s)\n", name, packageName, outputPath)
-- 
2.43.0


From e59233ceb7fc294bd7394679c8e3f620f969bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 26/55] fix: resolve listed scalars of packages without other
 needed types

---
 servicereader.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 3f785d1..48d25a9 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -333,6 +333,20 @@ func Read(
 			}
 		}
 	}
+	for missingConstant, missing := range missingConstants {
+		constantPackage := ""
+		if i := strings.LastIndex(missingConstant, "."); i > 0 {
+			constantPackage = missingConstant[:i]
+		}
+		if _, ok := allConstantTypes[constantPackage]; missing && !ok {
+			pkg, constPkgErr := parsePackage(goPaths, gomod, constantPackage)
+			if constPkgErr != nil {
+				err = constPkgErr
+				return
+			}
+			allConstantTypes[constantPackage] = loadConstantTypes(pkg)
+		}
+	}
 
 	flatStructs := map[string]bool{}
 	for _, s := range structs {
-- 
2.43.0


From 7b3169478187f063042a151b8b635da07b461914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:16 +0000
Subject: [PATCH 27/55] fix: a run that can not write mapped types fails

---
 build.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/build.go b/build.go
index aac9903..b491174 100644
--- a/build.go
+++ b/build.go
@@ -269,6 +269,7 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		updateErr := updateCode(mapping.Out, getTSHeaderComment()+ts)
 		if updateErr != nil {
 			_, _ = fmt.Fprintln(os.Stderr, "	failed to update code in", mapping.Out, updateErr)
+			os.Exit(6)
 		}
 	}
 }
-- 
2.43.0


From 745471bfb7453280e480c18f266b1c52148728d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:17 +0000
Subject: [PATCH 28/55] fix: TypeScript module names of different packages
 differ

---
 build.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index b491174..2ff1b2d 100644
--- a/build.go
+++ b/build.go
@@ -18,8 +18,19 @@ import (
 
 func deriveCommonJSMapping(conf *config.Config) {
 	replacer := strings.NewReplacer(".", "_", "/", "_", "-", "_")
-	for _, mapping := range conf.Mappings {
-		mapping.TypeScriptModule = replacer.Replace(mapping.GoPackage)
+	packageNames := make([]string, 0, len(conf.Mappings))
+	for packageName := range conf.Mappings {
+		packageNames = append(packageNames, packageName)
+	}
+	sort.Strings(packageNames)
+	taken := map[string]bool{}
+	for _, packageName := range packageNames {
+		module := replacer.Replace(packageName)
+		for taken[module] {
+			module += "_"
+		}
+		taken[module] = true
+		conf.Mappings[packageName].TypeScriptModule = module
 	}
 }
 
-- 
2.43.0


From 339ab93f50ec46349b79e653a7d22cad78e1de97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 29/55] fix: import only the TypeScript modules a file uses

---
 build.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/build.go b/build.go
index 2ff1b2d..94ca2f5 100644
--- a/build.go
+++ b/build.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"regexp"
 	"runtime"
 	"sort"
 	"strings"
@@ -43,6 +44,11 @@ func relativeFilePath(a, b string) (r string, e error) {
 	return
 }
 
+// usesModule tells if a name of the module is used, the name may end another one or be part of a comment or string
+func usesModule(code string, module string) bool {
+	return regexp.MustCompile(`(^|[^\w$./"'-]|\.\.\.)` + regexp.QuoteMeta(module) + `\.\w`).MatchString(code)
+}
+
 func commonJSImports(conf *config.Config, c *code, tsFilename string, code string) {
 	packageNames := make([]string, 0, len(conf.Mappings))
 	for packageName := range conf.Mappings {
@@ -52,7 +58,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 	for _, packageName := range packageNames {
 		importMapping := conf.Mappings[packageName]
 
-		if len(code) > 0 && !strings.Contains(code, importMapping.TypeScriptModule+".") {
+		if len(code) > 0 && !usesModule(code, importMapping.TypeScriptModule) {
 			continue
 		}
 
-- 
2.43.0


From 31906babfbe7ffb1356f809895a8323c317ce127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 30/55] fix: every typed literal constant is a member of its
 TypeScript enum with its value

---
 servicereader.go | 131 ++++++++++++++++++++++++++++++++++++-----------
 typescript.go    |  17 +++++-
 2 files changed, 116 insertions(+), 32 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 48d25a9..5b301c1 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -1,12 +1,15 @@
 package gotsrpc
 
 import (
+	"encoding/json"
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/constant"
 	"go/token"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/foomo/gotsrpc/v2/config"
@@ -191,8 +194,87 @@ func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[
 	return
 }
 
+// constantLiteral is the value of a constant in TypeScript, if it is a literal
+func constantLiteral(expr ast.Expr) (lit *ast.BasicLit, ok bool) {
+	sign := token.ADD
+	for {
+		if unary, ok := expr.(*ast.UnaryExpr); ok && (unary.Op == token.ADD || unary.Op == token.SUB) {
+			if unary.Op == token.SUB {
+				sign = map[token.Token]token.Token{token.ADD: token.SUB, token.SUB: token.ADD}[sign]
+			}
+			expr = unary.X
+		} else if paren, ok := expr.(*ast.ParenExpr); ok {
+			expr = paren.X
+		} else {
+			break
+		}
+	}
+	basicLit, ok := expr.(*ast.BasicLit)
+	if !ok {
+		return nil, false
+	}
+	value := constant.MakeFromLiteral(basicLit.Value, basicLit.Kind, 0)
+	lit = &ast.BasicLit{ValuePos: basicLit.ValuePos, Kind: basicLit.Kind}
+	switch value.Kind() { //nolint:exhaustive
+	case constant.String:
+		if strings.HasPrefix(basicLit.Value, `"`) && !strings.Contains(basicLit.Value, `\`) {
+			return basicLit, true
+		}
+		text, err := json.Marshal(constant.StringVal(value))
+		if err != nil {
+			return nil, false
+		}
+		lit.Value = string(text)
+	case constant.Int, constant.Float:
+		value = constant.UnaryOp(sign, value, 0)
+		if intValue := constant.ToInt(value); intValue.Kind() == constant.Int {
+			lit.Value = intValue.ExactString()
+		} else {
+			f, _ := constant.Float64Val(value)
+			lit.Value = strconv.FormatFloat(f, 'g', -1, 64)
+		}
+	default:
+		return nil, false
+	}
+	return lit, true
+}
+
+// constantTypeName is the TypeScript type of a type, that is defined as another type of the package
+func constantTypeName(types map[string]ast.Expr, typeExpr ast.Expr) string {
+	for range types {
+		ident, ok := typeExpr.(*ast.Ident)
+		if !ok || types[ident.Name] == nil {
+			break
+		}
+		typeExpr = types[ident.Name]
+	}
+	switch specType := typeExpr.(type) {
+	case *ast.InterfaceType:
+		return "any"
+	case *ast.Ident:
+		switch specType.Name {
+		case "any":
+			return "any"
+		case "string":
+			return "string"
+		case "bool":
+			return "boolean"
+		case "float", "float32", "float64", "byte",
+			"int", "int8", "int16", "int32", "int64",
+			"uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "rune":
+			return "number"
+		default:
+			trace("unhandled type", reflect.ValueOf(typeExpr).Type().String())
+		}
+	default:
+		trace("ignoring type", reflect.ValueOf(typeExpr).Type().String())
+	}
+	return ""
+}
+
 func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 	constantTypes := map[string]interface{}{}
+	types := map[string]ast.Expr{}
 	for _, file := range pkg.Files {
 		for _, decl := range file.Decls {
 			if genDecl, ok := decl.(*ast.GenDecl); ok {
@@ -201,45 +283,27 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 					trace("got a type", genDecl.Specs)
 					for _, spec := range genDecl.Specs {
 						if spec, ok := spec.(*ast.TypeSpec); ok {
-							if _, ok := constantTypes[spec.Name.Name]; ok {
-								continue
-							}
-							switch specType := spec.Type.(type) {
-							case *ast.InterfaceType:
-								constantTypes[spec.Name.Name] = "any"
-							case *ast.Ident:
-								switch specType.Name {
-								case "byte":
-									constantTypes[spec.Name.Name] = "any"
-								case "string":
-									constantTypes[spec.Name.Name] = "string"
-								case "bool":
-									constantTypes[spec.Name.Name] = "boolean"
-								case "float", "float32", "float64",
-									"int", "int8", "int16", "int32", "int64",
-									"uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "rune":
-									constantTypes[spec.Name.Name] = "number"
-								default:
-									trace("unhandled type", reflect.ValueOf(spec.Type).Type().String())
-								}
-							default:
-								trace("ignoring type", reflect.ValueOf(spec.Type).Type().String())
-							}
+							types[spec.Name.Name] = spec.Type
 						}
 					}
 				case token.CONST:
 					trace("got a const", genDecl.Specs)
+					var last *ast.ValueSpec
 					for _, spec := range genDecl.Specs {
 						if spec, ok := spec.(*ast.ValueSpec); ok {
-							if specType, ok := spec.Type.(*ast.Ident); ok {
-								for _, val := range spec.Values {
-									if valType, ok := val.(*ast.BasicLit); ok {
+							if spec.Type != nil || len(spec.Values) > 0 || last == nil {
+								last = spec
+							}
+							if specType, ok := last.Type.(*ast.Ident); ok {
+								for i, val := range last.Values {
+									if i >= len(spec.Names) || spec.Names[i].Name == "_" {
+										continue
+									}
+									if valType, ok := constantLiteral(val); ok {
 										if _, ok := constantTypes[specType.Name]; !ok {
 											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
-										} else if _, ok := constantTypes[specType.Name].(map[string]*ast.BasicLit); !ok {
-											constantTypes[specType.Name] = map[string]*ast.BasicLit{}
 										}
-										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[0].Name] = valType //nolint:forcetypeassert
+										constantTypes[specType.Name].(map[string]*ast.BasicLit)[spec.Names[i].Name] = valType //nolint:forcetypeassert
 									}
 								}
 							}
@@ -249,6 +313,13 @@ func loadConstantTypes(pkg *ast.Package) map[string]interface{} {
 			}
 		}
 	}
+	for name, typeExpr := range types {
+		if _, ok := constantTypes[name]; !ok {
+			if typeName := constantTypeName(types, typeExpr); typeName != "" {
+				constantTypes[name] = typeName
+			}
+		}
+	}
 	return constantTypes
 }
 
diff --git a/typescript.go b/typescript.go
index 4695d7e..0b4b05c 100644
--- a/typescript.go
+++ b/typescript.go
@@ -3,6 +3,7 @@ package gotsrpc
 import (
 	"errors"
 	"go/ast"
+	"go/token"
 	"regexp"
 	"sort"
 	"strconv"
@@ -250,6 +251,19 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 	return nil
 }
 
+// enumMemberName is the name of a constant without the prefix of its type
+func enumMemberName(typeName, name string) string {
+	member := strings.TrimPrefix(name, typeName)
+	if !ast.IsExported(name) && member == name || strings.Contains(name, "_") {
+		name = strcase.ToCamel(name)
+		member = strings.TrimPrefix(name, typeName)
+	}
+	if !token.IsIdentifier(member) {
+		return name
+	}
+	return member
+}
+
 func renderTypescriptStructsToPackages(
 	structs map[string]*Struct,
 	mappings config.TypeScriptMappings,
@@ -297,8 +311,7 @@ func renderTypescriptStructsToPackages(
 					sort.Strings(keys)
 					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
 					for _, k := range keys {
-						enum := strings.TrimPrefix(strcase.ToCamel(k), packageConstantTypeName)
-						packageCodeMap[packageConstantTypeName].l(enum + " = " + packageConstantTypeValuesList[k].Value + ",")
+						packageCodeMap[packageConstantTypeName].l(enumMemberName(packageConstantTypeName, k) + " = " + packageConstantTypeValuesList[k].Value + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
 				} else if packageConstantTypeValuesString, ok := packageConstantTypeValues.(string); ok {
-- 
2.43.0


From 251d7fd2310e6c232ac275f53fb70e77657bd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:07 +0000
Subject: [PATCH 31/55] fix: generate types defined as other types of the
 package and unexported types

---
 typereader.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/typereader.go b/typereader.go
index f053b81..8f24ffb 100644
--- a/typereader.go
+++ b/typereader.go
@@ -3,6 +3,7 @@ package gotsrpc
 import (
 	"fmt"
 	"go/ast"
+	"go/types"
 	"os"
 	"reflect"
 	"strings"
@@ -17,8 +18,9 @@ func readStructs(pkg *ast.Package, packageName string) (structs map[string]*Stru
 	trace("reading files in package", packageName)
 	scalars = map[string]*Scalar{}
 	errorTypes := map[string]bool{}
+	underlying := map[string]string{}
 	for _, file := range pkg.Files {
-		err = extractTypes(file, packageName, structs, scalars)
+		err = extractTypes(file, packageName, structs, scalars, underlying)
 		if err != nil {
 			return
 		}
@@ -28,6 +30,23 @@ func readStructs(pkg *ast.Package, packageName string) (structs map[string]*Stru
 			return
 		}
 	}
+	for name := range underlying {
+		// types defined as another type of the package have its fields, elements or basic type
+		base := name
+		for range underlying {
+			if next, ok := underlying[base]; ok {
+				base = next
+			}
+		}
+		if str, ok := structs[base]; ok {
+			named := *str
+			named.Name = strings.TrimPrefix(name, packageName+".")
+			structs[name] = &named
+			delete(scalars, name)
+		} else if scalar, ok := scalars[base]; ok {
+			scalars[name].Type = scalar.Type
+		}
+	}
 	for name, structType := range structs {
 		_, isErrorType := errorTypes[name]
 		if isErrorType {
@@ -165,7 +184,7 @@ func readAstType(v *Value, fieldIdent *ast.Ident, fileImports fileImportSpecMap,
 			Name:    structType,
 			Package: fileImports.getPackagePath(packageName),
 		}
-	} else if fieldIdent.Name[:1] == strings.ToUpper(fieldIdent.Name[:1]) {
+	} else if types.Universe.Lookup(fieldIdent.Name) == nil {
 		v.Scalar = &Scalar{
 			Package: fileImports.getPackagePath(packageName),
 			Name:    fieldIdent.Name,
@@ -390,7 +409,7 @@ func extractErrorTypes(file *ast.File, packageName string, errorTypes map[string
 	return
 }
 
-func extractTypes(file *ast.File, packageName string, structs map[string]*Struct, scalars map[string]*Scalar) error {
+func extractTypes(file *ast.File, packageName string, structs map[string]*Struct, scalars map[string]*Scalar, underlying map[string]string) error {
 	fileImports := getFileImports(file, packageName)
 	for name, obj := range file.Scope.Objects {
 		if obj.Kind == ast.Typ && obj.Decl != nil {
@@ -423,6 +442,9 @@ func extractTypes(file *ast.File, packageName string, structs map[string]*Struct
 						Package: packageName,
 						Type:    getScalarFromAstIdent(typeSpecType),
 					}
+					if types.Universe.Lookup(typeSpecType.Name) == nil {
+						underlying[structName] = packageName + "." + typeSpecType.Name
+					}
 				case *ast.SelectorExpr:
 					trace("SelectorExpr", obj.Name)
 					structs[structName] = &Struct{
-- 
2.43.0


From 24d77491e3cd030e5e8dd1ac0d6073d5e13f6281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 32/55] fix: unexported constants keep their name in TypeScript
 enums

---
 typescript.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typescript.go b/typescript.go
index 0b4b05c..d1b923f 100644
--- a/typescript.go
+++ b/typescript.go
@@ -254,9 +254,12 @@ func renderTypescriptStruct(str *Struct, mappings config.TypeScriptMappings, sca
 // enumMemberName is the name of a constant without the prefix of its type
 func enumMemberName(typeName, name string) string {
 	member := strings.TrimPrefix(name, typeName)
-	if !ast.IsExported(name) && member == name || strings.Contains(name, "_") {
+	if strings.Contains(name, "_") {
 		name = strcase.ToCamel(name)
 		member = strings.TrimPrefix(name, typeName)
+	} else if member == name {
+		name = ucfirst(name)
+		member = strings.TrimPrefix(name, typeName)
 	}
 	if !token.IsIdentifier(member) {
 		return name
-- 
2.43.0


From 978f94367c5fbfd50b08ed12efde951c4c229290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 33/55] fix: read packages without the generated code of
 earlier runs

---
 build.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/build.go b/build.go
index 94ca2f5..aed26bb 100644
--- a/build.go
+++ b/build.go
@@ -92,6 +92,18 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 	}
 	sort.Strings(names)
 
+	// packages are read without the code of earlier runs
+	for _, name := range names {
+		outputPath := getPathForTarget(conf.Module, goPath, conf.Targets[name])
+		for _, base := range []string{"gorpc_gen.go", "gorpcclient_gen.go", "gotsrpc_gen.go", "gotsrpcclient_gen.go"} {
+			filename := path.Join(outputPath, base)
+			if _, err := os.Stat(filename); err == nil {
+				_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
+				os.Remove(filename)
+			}
+		}
+	}
+
 	for _, name := range names {
 		target := conf.Targets[name]
 
@@ -118,18 +130,6 @@ func Build(conf *config.Config, goPath string) { //nolint:maintidx
 		goTSRPCProxiesFilename := path.Join(outputPath, "gotsrpc_gen.go")
 		goTSRPCClientsFilename := path.Join(outputPath, "gotsrpcclient_gen.go")
 
-		remove := func(filename string) {
-			_, err := os.Stat(filename)
-			if err == nil {
-				_, _ = fmt.Fprintln(os.Stderr, "	removing existing", filename)
-				os.Remove(filename)
-			}
-		}
-		remove(goRPCProxiesFilename)
-		remove(goRPCClientsFilename)
-		remove(goTSRPCProxiesFilename)
-		remove(goTSRPCClientsFilename)
-
 		workDirectory, err := os.Getwd()
 		if err != nil {
 			_, _ = fmt.Fprintln(os.Stderr, err)
-- 
2.43.0


From ffdfa4eecdadb6988e915eba3f56db1f81cb8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 34/55] fix: packages that only share a prefix with the
 module's path are not part of it

---
 build.go   | 2 +-
 gotsrpc.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index aed26bb..fd856ac 100644
--- a/build.go
+++ b/build.go
@@ -72,7 +72,7 @@ func commonJSImports(conf *config.Config, c *code, tsFilename string, code strin
 }
 
 func getPathForTarget(gomod config.Namespace, goPath string, target *config.Target) (outputPath string) {
-	if gomod.Name != "" && strings.HasPrefix(target.Package, gomod.Name) {
+	if gomod.Name != "" && isBelow(target.Package, gomod.Name) {
 		relative := strings.TrimPrefix(target.Package, gomod.Name)
 		return path.Join(gomod.Path, relative)
 	} else {
diff --git a/gotsrpc.go b/gotsrpc.go
index 2ae3f72..fb4f493 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -146,8 +146,13 @@ func parserExcludeFiles(info os.FileInfo) bool {
 	return !strings.HasSuffix(info.Name(), "_test.go")
 }
 
+// isBelow tells if a package is the one of a module or below it
+func isBelow(packageName, modulePath string) bool {
+	return packageName == modulePath || strings.HasPrefix(packageName, modulePath+"/")
+}
+
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
-	if gomod.Name != "" && strings.HasPrefix(packageName, gomod.Name) {
+	if gomod.Name != "" && isBelow(packageName, gomod.Name) {
 		fset := token.NewFileSet()
 		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
-- 
2.43.0


From c50287d879b21312a493db0aac91c2dc2b3def41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 35/55] fix: find packages of other modules like Go

The longest matching path of go.mod decides, replace directives for a version
apply to that version, local directories can be absolute and capital letters
are escaped in the module cache.
---
 gotsrpc.go | 77 +++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 56 insertions(+), 21 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index fb4f493..d38ee68 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -19,6 +19,8 @@ import (
 
 	"github.com/pkg/errors"
 	"github.com/ugorji/go/codec"
+	"golang.org/x/mod/modfile"
+	"golang.org/x/mod/module"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -151,6 +153,59 @@ func isBelow(packageName, modulePath string) bool {
 	return packageName == modulePath || strings.HasPrefix(packageName, modulePath+"/")
 }
 
+// moduleCacheDir is the directory of a module in the module cache
+func moduleCacheDir(goPath string, version module.Version) string {
+	if escaped, err := module.EscapePath(version.Path); err == nil {
+		version.Path = escaped
+	}
+	if escaped, err := module.EscapeVersion(version.Version); err == nil {
+		version.Version = escaped
+	}
+	return path.Join(goPath, "pkg", "mod", version.String())
+}
+
+// dependencyDir is the directory of a package of another module in go.mod, the one with the longest matching path
+func dependencyDir(goPath string, gomod config.Namespace, packageName string) (dir string, ok bool) {
+	var mod module.Version
+	for _, req := range gomod.ModFile.Require {
+		if isBelow(packageName, req.Mod.Path) && len(req.Mod.Path) > len(mod.Path) {
+			mod = req.Mod
+		}
+	}
+	var replace *modfile.Replace
+	for _, rep := range gomod.ModFile.Replace {
+		if !isBelow(packageName, rep.Old.Path) || len(rep.Old.Path) < len(mod.Path) {
+			continue
+		}
+		if rep.Old.Version != "" && rep.Old != mod {
+			continue
+		}
+		if len(rep.Old.Path) > len(mod.Path) {
+			mod = module.Version{Path: rep.Old.Path}
+			replace = rep
+		} else if replace == nil || rep.Old.Version != "" {
+			replace = rep
+		}
+	}
+	switch {
+	case mod.Path == "":
+		return "", false
+	case replace == nil:
+		trace("resolving mod package", packageName, mod.String())
+		dir = moduleCacheDir(goPath, mod)
+	case modfile.IsDirectoryPath(replace.New.Path):
+		trace("replacing package with local dir", packageName, replace.Old.String(), replace.New.String())
+		dir = replace.New.Path
+		if !filepath.IsAbs(dir) {
+			dir = filepath.Join(gomod.Path, dir)
+		}
+	default:
+		trace("replacing package", packageName, replace.Old.String(), replace.New.String())
+		dir = moduleCacheDir(goPath, replace.New)
+	}
+	return path.Join(dir, strings.TrimPrefix(packageName, mod.Path)), true
+}
+
 func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map[string]*ast.Package, *token.FileSet, error) {
 	if gomod.Name != "" && isBelow(packageName, gomod.Name) {
 		fset := token.NewFileSet()
@@ -164,27 +219,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 		var dir string
 		fset := token.NewFileSet()
 		if gomod.ModFile != nil {
-			for _, rep := range gomod.ModFile.Replace {
-				if packageName == rep.Old.Path || strings.HasPrefix(packageName, rep.Old.Path+"/") {
-					if strings.HasPrefix(rep.New.String(), ".") || strings.HasPrefix(rep.New.Path, "/") {
-						trace("replacing package with local dir", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.Replace(packageName, rep.Old.Path, filepath.Join(gomod.Path, rep.New.Path), 1)
-					} else {
-						trace("replacing package", packageName, rep.Old.String(), rep.New.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", rep.New.String(), strings.TrimPrefix(packageName, rep.Old.Path)), "/")
-					}
-					break
-				}
-			}
-			if dir == "" {
-				for _, req := range gomod.ModFile.Require {
-					if packageName == req.Mod.Path || strings.HasPrefix(packageName, req.Mod.Path+"/") {
-						trace("resolving mod package", packageName, req.Mod.String())
-						dir = strings.TrimSuffix(path.Join(goPath, "pkg", "mod", req.Mod.String(), strings.TrimPrefix(packageName, req.Mod.Path)), "/")
-						break
-					}
-				}
-			}
+			dir, _ = dependencyDir(goPath, gomod, packageName)
 		}
 		if dir == "" {
 			if strings.HasSuffix(goPath, "vendor") {
-- 
2.43.0


From 1a1e52bfc02572f0a80dee7378c337c17cfd977c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:22 +0000
Subject: [PATCH 36/55] fix: directories without Go files do not hide packages
 of other Go paths

---
 gotsrpc.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index d38ee68..708237e 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -222,13 +222,16 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 			dir, _ = dependencyDir(goPath, gomod, packageName)
 		}
 		if dir == "" {
-			if strings.HasSuffix(goPath, "vendor") {
+			if path.Base(goPath) == "vendor" {
 				dir = path.Join(goPath, packageName)
 			} else {
 				dir = path.Join(goPath, "src", packageName)
 			}
 		}
 		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.AllErrors)
+		if err == nil && len(pkgs) == 0 {
+			err = errors.New("no Go files")
+		}
 		if err == nil {
 			return pkgs, fset, nil
 		}
-- 
2.43.0


From ccd1b62c4c092b320a807cc89b8b4fcf3ef8bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 37/55] fix: read go.mod of modules with an absolute path

---
 config/config.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/config/config.go b/config/config.go
index d84cec9..74ea8f1 100644
--- a/config/config.go
+++ b/config/config.go
@@ -73,8 +73,11 @@ func LoadConfigFile(file string) (conf *Config, err error) {
 		return nil, err
 	}
 
-	if conf.Module.Path != "" && !path.IsAbs(conf.Module.Path) {
-		absPath, err := filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
+	if conf.Module.Path != "" {
+		absPath, err := filepath.Abs(conf.Module.Path)
+		if !path.IsAbs(conf.Module.Path) {
+			absPath, err = filepath.Abs(filepath.Join(filepath.Dir(file), conf.Module.Path))
+		}
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 2cfd2e5a0569949ff3cb6724523a580e80953896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 38/55] fix: targets and mappings without settings are an error

---
 config/config.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/config/config.go b/config/config.go
index 74ea8f1..77ff160 100644
--- a/config/config.go
+++ b/config/config.go
@@ -103,7 +103,15 @@ func loadConfig(yamlBytes []byte) (conf *Config, err error) {
 		err = errors.New("could not parse yaml: " + yamlErr.Error())
 		return
 	}
+	for name, target := range conf.Targets {
+		if target == nil {
+			return nil, errors.New("target without settings: " + name)
+		}
+	}
 	for goPackage, mapping := range conf.Mappings {
+		if mapping == nil {
+			return nil, errors.New("mapping without settings: " + goPackage)
+		}
 		mapping.GoPackage = goPackage
 	}
 	return
-- 
2.43.0


From 4bd5307be7d2bb624981418f7fe6612170d2da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 39/55] fix: leave out files that build constraints exclude
 from a package

---
 gotsrpc.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gotsrpc.go b/gotsrpc.go
index 708237e..efb3882 100644
--- a/gotsrpc.go
+++ b/gotsrpc.go
@@ -6,6 +6,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"net/http"
@@ -144,8 +145,15 @@ func Reply(response []interface{}, stats *CallStats, r *http.Request, w http.Res
 	return nil
 }
 
-func parserExcludeFiles(info os.FileInfo) bool {
-	return !strings.HasSuffix(info.Name(), "_test.go")
+// parserExcludeFiles leaves out the files of a directory, that are no part of its package
+func parserExcludeFiles(dir string) func(info os.FileInfo) bool {
+	return func(info os.FileInfo) bool {
+		if strings.HasSuffix(info.Name(), "_test.go") {
+			return false
+		}
+		match, err := build.Default.MatchFile(dir, info.Name())
+		return match || err != nil
+	}
 }
 
 // isBelow tells if a package is the one of a module or below it
@@ -210,7 +218,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 	if gomod.Name != "" && isBelow(packageName, gomod.Name) {
 		fset := token.NewFileSet()
 		dir := strings.Replace(packageName, gomod.Name, gomod.Path, 1)
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.DeclarationErrors|parser.AllErrors)
+		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles(dir), parser.DeclarationErrors|parser.AllErrors)
 		return pkgs, fset, err
 	}
 
@@ -228,7 +236,7 @@ func parseDir(goPaths []string, gomod config.Namespace, packageName string) (map
 				dir = path.Join(goPath, "src", packageName)
 			}
 		}
-		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles, parser.AllErrors)
+		pkgs, err := parser.ParseDir(fset, dir, parserExcludeFiles(dir), parser.AllErrors)
 		if err == nil && len(pkgs) == 0 {
 			err = errors.New("no Go files")
 		}
-- 
2.43.0


From 67f21f01efc3167f65ac6b20f941f279c93b8ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:20 +0000
Subject: [PATCH 40/55] fix: expose exported methods only

---
 servicereader.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 5b301c1..6ba8bdb 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -40,8 +40,7 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 					if starExpr, ok := firstReceiverField.Type.(*ast.StarExpr); ok {
 						if ident, ok := starExpr.X.(*ast.Ident); ok {
 							service, ok := findService(ident.Name)
-							firstCharOfMethodName := funcDecl.Name.Name[0:1]
-							if !ok || strings.ToLower(firstCharOfMethodName) == firstCharOfMethodName {
+							if !ok || !funcDecl.Name.IsExported() {
 								// skip this method
 								continue
 							}
@@ -76,6 +75,9 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 										continue
 									}
 									mname := fieldDecl.Names[0]
+									if !mname.IsExported() {
+										continue
+									}
 									trace(" on sth:", mname.Name)
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
-- 
2.43.0


From 045fdd9f4bf8c8410e0bcfdc66ba4889d07b0b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 41/55] fix: resolve imports of packages that are not named
 like the last element of their path

---
 servicereader.go | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/servicereader.go b/servicereader.go
index 6ba8bdb..62c87fb 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -7,10 +7,12 @@ import (
 	"go/ast"
 	"go/constant"
 	"go/token"
+	"path"
 	"reflect"
 	"sort"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -120,8 +122,22 @@ func standardImportName(importPath string) string {
 	return pathParts[len(pathParts)-1]
 }
 
+// assumedImportName is the name of a package, that is not the last element of its import path, by convention
+func assumedImportName(importPath string) string {
+	name := path.Base(importPath)
+	if _, err := strconv.Atoi(strings.TrimPrefix(name, "v")); err == nil && strings.HasPrefix(name, "v") {
+		name = path.Base(path.Dir(importPath))
+	}
+	name = strings.TrimPrefix(name, "go-")
+	if i := strings.IndexFunc(name, func(r rune) bool { return r != '_' && !unicode.IsLetter(r) && !unicode.IsDigit(r) }); i >= 0 {
+		name = name[:i]
+	}
+	return name
+}
+
 func getFileImports(file *ast.File, packageName string) (imports fileImportSpecMap) {
 	imports = fileImportSpecMap{"": importSpec{alias: "", name: "", path: packageName}}
+	assumed := map[string]string{}
 	for _, decl := range file.Decls {
 		if genDecl, ok := decl.(*ast.GenDecl); ok {
 			if genDecl.Tok == token.IMPORT {
@@ -132,6 +148,10 @@ func getFileImports(file *ast.File, packageName string) (imports fileImportSpecM
 						importName := spec.Name.String()
 						if importName == "" || importName == "<nil>" {
 							importName = standardImportName(importPath)
+							assumed[assumedImportName(importPath)] = importPath
+							if _, ok := imports[importName]; ok {
+								continue
+							}
 						}
 						imports[importName] = importSpec{
 							alias: importName,
@@ -144,6 +164,15 @@ func getFileImports(file *ast.File, packageName string) (imports fileImportSpecM
 			}
 		}
 	}
+	for importName, importPath := range assumed {
+		if _, ok := imports[importName]; !ok {
+			imports[importName] = importSpec{
+				alias: importName,
+				name:  importName,
+				path:  importPath,
+			}
+		}
+	}
 	return imports
 }
 
-- 
2.43.0


From a35e76ddb05696fe4b2b0cef4096480f7a87b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 42/55] fix: import every package of generated Go code under
 its own valid name

---
 go.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/go.go b/go.go
index c5949fd..556922a 100644
--- a/go.go
+++ b/go.go
@@ -2,8 +2,10 @@ package gotsrpc
 
 import (
 	"fmt"
+	"go/token"
 	"sort"
 	"strings"
+	"unicode"
 
 	"github.com/foomo/gotsrpc/v2/config"
 )
@@ -70,24 +72,35 @@ func strfirst(str string, strfunc func(string) string) string {
 }
 
 func extractImport(packageName string, fullPackageName string, aliases map[string]string) {
-	r := strings.NewReplacer(".", "_", "/", "_", "-", "_")
 	if packageName != fullPackageName {
 		if _, ok := aliases[packageName]; !ok {
-			packageParts := strings.Split(packageName, "/")
-			beautifulAlias := packageParts[len(packageParts)-1]
-			uglyAlias := r.Replace(packageName)
-			alias := uglyAlias // beautifulAlias
-			for _, otherAlias := range aliases {
-				if otherAlias == beautifulAlias {
-					alias = uglyAlias
-					break
+			alias := strings.Map(func(r rune) rune {
+				if unicode.IsLetter(r) || unicode.IsDigit(r) {
+					return r
 				}
+				return '_'
+			}, packageName)
+			if token.IsKeyword(alias) || (alias != "" && unicode.IsDigit([]rune(alias)[0])) {
+				alias = "_" + alias
+			}
+			taken := map[string]bool{}
+			for _, otherAlias := range aliases {
+				taken[otherAlias] = true
 			}
-			aliases[packageName] = alias
+			aliases[packageName] = uniqueName(alias, taken)
 		}
 	}
 }
 
+// uniqueName appends underscores to a name until it is not taken, and takes it
+func uniqueName(name string, taken map[string]bool) string {
+	for taken[name] {
+		name += "_"
+	}
+	taken[name] = true
+	return name
+}
+
 func extractImports(fields []*Field, fullPackageName string, aliases map[string]string) {
 	for _, f := range fields {
 		extractImportValue(f.Value, fullPackageName, aliases)
@@ -126,7 +139,12 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		}
 	}
 
+	unionPackages := make([]string, 0, len(unions))
 	for pkg := range unions {
+		unionPackages = append(unionPackages, pkg)
+	}
+	sort.Strings(unionPackages)
+	for _, pkg := range unionPackages {
 		extractImport(pkg, fullPackageName, aliases)
 	}
 
-- 
2.43.0


From 2b63dd2808a09bb04265f22aa97ce1311ad66e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 43/55] fix: qualify types in TSRPC proxies of packages named
 like another package

---
 go.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/go.go b/go.go
index 556922a..0512c48 100644
--- a/go.go
+++ b/go.go
@@ -150,7 +150,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 	g.l(renderImports(aliases, packageName))
 
-	renderInit(unions, aliases, packageName, g)
+	renderInit(unions, aliases, fullPackageName, g)
 
 	for _, service := range services {
 		// Check if we should render this service as ts rcp
@@ -235,7 +235,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 
 				for _, arg := range nonHTTPRelatedArgs {
 					argName := "arg_" + arg.Name
-					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, packageName))
+					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, fullPackageName))
 					args = append(args, "&"+argName)
 					callArgs = append(callArgs, argName)
 					skipArgI++
@@ -746,7 +746,7 @@ func goMethodArgsWithoutHTTPContextRelatedArgs(m *Method) (filteredArgs []*Field
 	return
 }
 
-func renderInit(unions map[string][]string, aliases map[string]string, packageName string, g *code) {
+func renderInit(unions map[string][]string, aliases map[string]string, fullPackageName string, g *code) {
 	if len(unions) > 0 {
 		g.l("func init() {")
 		g.ind(1)
@@ -754,7 +754,7 @@ func renderInit(unions map[string][]string, aliases map[string]string, packageNa
 		for pkg, us := range unions {
 			for _, name := range us {
 				var str string
-				if packageName != pkg && aliases[pkg] != "" {
+				if fullPackageName != pkg && aliases[pkg] != "" {
 					str += aliases[pkg] + "."
 				}
 				str += name
-- 
2.43.0


From e47f98d783e9ca7135e6f9dc2edc023bce3af273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 44/55] fix: name parameters that are declared without a name

---
 servicereader.go | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/servicereader.go b/servicereader.go
index 62c87fb..e2b473e 100644
--- a/servicereader.go
+++ b/servicereader.go
@@ -51,8 +51,8 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 
 							service.Methods = append(service.Methods, &Method{
 								Name:   funcDecl.Name.Name,
-								Args:   readFields(funcDecl.Type.Params, fileImports),
-								Return: readFields(funcDecl.Type.Results, fileImports),
+								Args:   readParams(funcDecl.Type.Params, fileImports),
+								Return: readResults(funcDecl.Type.Results, fileImports),
 							})
 						}
 					}
@@ -84,8 +84,8 @@ func readServiceFile(file *ast.File, packageName string, services ServiceList) e
 									// fmt.Println("interface:", ident.Name, "method:", mname.Name)
 									service.Methods = append(service.Methods, &Method{
 										Name:   mname.Name,
-										Args:   readFields(funcDecl.Params, fileImports),
-										Return: readFields(funcDecl.Results, fileImports),
+										Args:   readParams(funcDecl.Params, fileImports),
+										Return: readResults(funcDecl.Results, fileImports),
 									})
 								}
 							}
@@ -196,6 +196,37 @@ func readFields(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields
 	return
 }
 
+// readParams names the parameters that have no name
+func readParams(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields []*Field) {
+	fields = readFields(fieldList, fileImports)
+	taken := map[string]bool{"": true, "_": true}
+	for _, field := range fields {
+		taken[field.Name] = true
+	}
+	for i, field := range fields {
+		if field.Name != "" && field.Name != "_" {
+			continue
+		}
+		name := "arg"
+		if i > 0 {
+			name += "_" + strconv.Itoa(i)
+		}
+		field.Name = uniqueName(name, taken)
+	}
+	return fields
+}
+
+// readResults reads blank results as ones without a name
+func readResults(fieldList *ast.FieldList, fileImports fileImportSpecMap) (fields []*Field) {
+	fields = readFields(fieldList, fileImports)
+	for _, field := range fields {
+		if field.Name == "_" {
+			field.Name = ""
+		}
+	}
+	return fields
+}
+
 func readServicesInPackage(pkg *ast.Package, packageName string, serviceMap map[string]string) (services ServiceList, err error) {
 	if pkg == nil {
 		return nil, errors.New("package cannot be nil")
-- 
2.43.0


From a63172bcc52354119ed80bb10f46398a2fa7d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:48 +0000
Subject: [PATCH 45/55] fix: name the GoRPC requests and responses of
 unexported services consistently

---
 go.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/go.go b/go.go
index 0512c48..ff8fd31 100644
--- a/go.go
+++ b/go.go
@@ -563,16 +563,16 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				rets = append(rets, name)
 				retParams = append(retParams, ucfirst(name)+`: `+name)
 			}
-			g.l(`case "` + service.Name + method.Name + `Request":`)
+			g.l(`case "` + ucfirst(service.Name+method.Name) + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
-				g.l(`req := request.(` + service.Name + method.Name + `Request)`)
+				g.l(`req := request.(` + ucfirst(service.Name+method.Name) + `Request)`)
 			}
 			if len(rets) > 0 {
 				g.l(strings.Join(rets, ", ") + ` := p.service.` + method.Name + `(` + strings.Join(argParams, ", ") + `)`)
 			} else {
 				g.l(`p.service.` + method.Name + `(` + strings.Join(argParams, ", ") + `)`)
 			}
-			g.l(`response = ` + service.Name + method.Name + `Response{` + strings.Join(retParams, ", ") + `}`)
+			g.l(`response = ` + ucfirst(service.Name+method.Name) + `Response{` + strings.Join(retParams, ", ") + `}`)
 		}
 		g.l(`default:`)
 		g.l(`fmt.Println("Unknown request type", reflect.TypeOf(request).String())`)
@@ -669,7 +669,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			}
 			returns = append(returns, "clientErr error")
 			g.l(`func (tsc *` + clientName + `) ` + method.Name + `(` + strings.Join(params, ", ") + `) (` + strings.Join(returns, ", ") + `) {`)
-			g.l(`req := ` + service.Name + method.Name + `Request{` + strings.Join(args, ", ") + `}`)
+			g.l(`req := ` + ucfirst(service.Name+method.Name) + `Request{` + strings.Join(args, ", ") + `}`)
 			if len(rets) > 0 {
 				g.l(`rpcCallRes, rpcCallErr := tsc.Client.Call(req)`)
 			} else {
@@ -680,7 +680,7 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 			g.l(`return`)
 			g.l(`}`)
 			if len(rets) > 0 {
-				g.l(`response := rpcCallRes.(` + service.Name + method.Name + `Response)`)
+				g.l(`response := rpcCallRes.(` + ucfirst(service.Name+method.Name) + `Response)`)
 				g.l(`return ` + strings.Join(rets, ", ") + `, nil`)
 			} else {
 				g.l(`return nil`)
-- 
2.43.0


From b5a3914008588214268791702af315fce214e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:51 +0000
Subject: [PATCH 46/55] fix: keep names of parameters and results apart from
 other names of the generated code

---
 go.go | 108 +++++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 77 insertions(+), 31 deletions(-)

diff --git a/go.go b/go.go
index ff8fd31..490ab68 100644
--- a/go.go
+++ b/go.go
@@ -92,6 +92,55 @@ func extractImport(packageName string, fullPackageName string, aliases map[strin
 	}
 }
 
+// takenNames are names, that generated code must not declare again
+func takenNames(aliases map[string]string, names ...string) map[string]bool {
+	taken := map[string]bool{"nil": true}
+	for _, alias := range aliases {
+		taken[alias] = true
+	}
+	for _, name := range names {
+		taken[name] = true
+	}
+	return taken
+}
+
+// returnName is the name of a result in generated code
+func returnName(method *Method, i int) string {
+	if name := method.Return[i].Name; len(name) > 0 {
+		return name
+	}
+	return fmt.Sprintf("ret%s_%d", method.Name, i)
+}
+
+// messageFieldNames are the names of the fields, that carry named values in a GoRPC request or response
+func messageFieldNames(names []string) (fieldNames []string) {
+	taken := map[string]bool{}
+	for _, name := range names {
+		fieldName := ucfirst(name)
+		if !token.IsExported(fieldName) {
+			fieldName = "X" + fieldName
+		}
+		fieldNames = append(fieldNames, uniqueName(fieldName, taken))
+	}
+	return fieldNames
+}
+
+func requestFieldNames(method *Method) []string {
+	var names []string
+	for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
+		names = append(names, a.Name)
+	}
+	return messageFieldNames(names)
+}
+
+func responseFieldNames(method *Method) []string {
+	var names []string
+	for i := range method.Return {
+		names = append(names, returnName(method, i))
+	}
+	return messageFieldNames(names)
+}
+
 // uniqueName appends underscores to a name until it is not taken, and takes it
 func uniqueName(name string, taken map[string]bool) string {
 	for taken[name] {
@@ -217,6 +266,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			g.ind(1)
 			var callArgs []string
 			isSessionRequest := false
+			taken := takenNames(aliases, "p", "w", "r", "rw", "err", "args", "rets", "funcName", "callStats", "executionStart")
 			g.l("var (")
 			g.ind(1)
 			g.l("args []interface{}")
@@ -234,7 +284,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 				isSessionRequest = len(method.Args)-len(nonHTTPRelatedArgs) == 2
 
 				for _, arg := range nonHTTPRelatedArgs {
-					argName := "arg_" + arg.Name
+					argName := uniqueName("arg_"+arg.Name, taken)
 					argsDecls = append(argsDecls, argName+"  "+arg.Value.goType(aliases, fullPackageName))
 					args = append(args, "&"+argName)
 					callArgs = append(callArgs, argName)
@@ -264,7 +314,7 @@ func renderTSRPCServiceProxies(services ServiceList, fullPackageName string, pac
 						retArgName += "_" + fmt.Sprint(retI)
 					}
 				}
-				returnValueNames = append(returnValueNames, lcfirst(method.Name)+ucfirst(retArgName))
+				returnValueNames = append(returnValueNames, uniqueName(lcfirst(method.Name)+ucfirst(retArgName), taken))
 			}
 			g.l("executionStart := time.Now()")
 			if isSessionRequest {
@@ -315,17 +365,16 @@ func newMethodSignature(method *Method, aliases map[string]string, fullPackageNa
 	var args []string
 	var params []string
 	params = append(params, "ctx go_context.Context")
+	taken := takenNames(aliases, "tsc", "ctx", "args", "reply", "clientErr")
 	for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-		args = append(args, a.Name)
-		params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+		name := uniqueName(a.Name, taken)
+		args = append(args, name)
+		params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 	}
 	var rets []string
 	var returns []string
 	for i, r := range method.Return {
-		name := r.Name
-		if len(name) == 0 {
-			name = fmt.Sprintf("ret%s_%d", method.Name, i)
-		}
+		name := uniqueName(returnName(method, i), taken)
 		rets = append(rets, "&"+name)
 		returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
 	}
@@ -476,18 +525,16 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 		for _, method := range service.Methods {
 			// Request type
 			g.l(ucfirst(service.Name+method.Name) + `Request struct {`)
-			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				g.l(ucfirst(a.Name) + ` ` + a.Value.goType(aliases, fullPackageName))
+			requestFields := requestFieldNames(method)
+			for i, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
+				g.l(requestFields[i] + ` ` + a.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			// Response type
 			g.l(ucfirst(service.Name+method.Name) + `Response struct {`)
+			responseFields := responseFieldNames(method)
 			for i, r := range method.Return {
-				name := r.Name
-				if len(name) == 0 {
-					name = fmt.Sprintf("ret%s_%d", method.Name, i)
-				}
-				g.l(ucfirst(name) + ` ` + r.Value.goType(aliases, fullPackageName))
+				g.l(responseFields[i] + ` ` + r.Value.goType(aliases, fullPackageName))
 			}
 			g.l(`}`)
 			g.nl()
@@ -550,18 +597,16 @@ func renderGoRPCServiceProxies(services ServiceList, fullPackageName string, pac
 			for i := 0; i < diffNONHTTPRelatedMethodArgs; i++ {
 				argParams = append(argParams, "nil")
 			}
-			for _, a := range nonHTTPRelatedMethodArgs {
-				argParams = append(argParams, "req."+ucfirst(a.Name))
+			for _, fieldName := range requestFieldNames(method) {
+				argParams = append(argParams, "req."+fieldName)
 			}
+			taken := takenNames(aliases, "p", "clientAddr", "request", "response", "req", "start", "reqType", "funcNameParts", "funcName")
 			rets := []string{}
 			retParams := []string{}
-			for i, r := range method.Return {
-				name := r.Name
-				if len(name) == 0 {
-					name = fmt.Sprintf("ret%s_%d", method.Name, i)
-				}
+			for i, fieldName := range responseFieldNames(method) {
+				name := uniqueName(returnName(method, i), taken)
 				rets = append(rets, name)
-				retParams = append(retParams, ucfirst(name)+`: `+name)
+				retParams = append(retParams, fieldName+`: `+name)
 			}
 			g.l(`case "` + ucfirst(service.Name+method.Name) + `Request":`)
 			if len(nonHTTPRelatedMethodArgs) > 0 {
@@ -653,18 +698,19 @@ func renderGoRPCServiceClients(services ServiceList, fullPackageName string, pac
 		for _, method := range service.Methods {
 			args := []string{}
 			params := []string{}
-			for _, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
-				args = append(args, ucfirst(a.Name)+`: `+a.Name)
-				params = append(params, a.Name+" "+a.Value.goType(aliases, fullPackageName))
+			taken := takenNames(aliases, "tsc", "req", "response", "rpcCallRes", "rpcCallErr", "clientErr")
+			requestFields := requestFieldNames(method)
+			for i, a := range goMethodArgsWithoutHTTPContextRelatedArgs(method) {
+				name := uniqueName(a.Name, taken)
+				args = append(args, requestFields[i]+`: `+name)
+				params = append(params, name+" "+a.Value.goType(aliases, fullPackageName))
 			}
 			rets := []string{}
 			returns := []string{}
+			responseFields := responseFieldNames(method)
 			for i, r := range method.Return {
-				name := r.Name
-				if len(name) == 0 {
-					name = fmt.Sprintf("ret%s_%d", method.Name, i)
-				}
-				rets = append(rets, "response."+ucfirst(name))
+				name := uniqueName(returnName(method, i), taken)
+				rets = append(rets, "response."+responseFields[i])
 				returns = append(returns, name+" "+r.Value.goType(aliases, fullPackageName))
 			}
 			returns = append(returns, "clientErr error")
-- 
2.43.0


From 77a89ee89658c4208b4a501a25b29dcd75d29e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:55 +0000
Subject: [PATCH 47/55] fix: keep names in TypeScript clients valid and apart
 from each other

---
 typscriptclient.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/typscriptclient.go b/typscriptclient.go
index 78b171f..b9c6a0d 100644
--- a/typscriptclient.go
+++ b/typscriptclient.go
@@ -8,6 +8,15 @@ import (
 	"github.com/foomo/gotsrpc/v2/config"
 )
 
+// names that no parameter in TypeScript can have
+var tsReservedNames = []string{
+	"arguments", "await", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete",
+	"do", "else", "enum", "eval", "export", "extends", "false", "finally", "for", "function", "if", "implements",
+	"import", "in", "instanceof", "interface", "let", "new", "null", "package", "private", "protected", "public",
+	"return", "static", "super", "switch", "this", "throw", "true", "try", "typeof", "undefined", "var", "void",
+	"while", "with", "yield",
+}
+
 func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings, scalars map[string]*Scalar, structs map[string]*Struct, ts *code) error {
 	clientName := service.Name + "Client"
 
@@ -24,8 +33,13 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 	ts.l(") {}")
 
 	for _, method := range service.Methods {
-		ts.app("async " + lcfirst(method.Name) + "(")
+		functionName := lcfirst(method.Name)
+		if functionName == "constructor" {
+			functionName = `["constructor"]`
+		}
+		ts.app("async " + functionName + "(")
 		var callArgs []string
+		taken := takenNames(nil, tsReservedNames...)
 		argOffset := 0
 		for index, arg := range method.Args {
 			if index == 0 && arg.Value.isHTTPResponseWriter() {
@@ -47,10 +61,11 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 			if index > argOffset {
 				ts.app(", ")
 			}
-			ts.app(arg.tsName())
+			argName := uniqueName(arg.tsName(), taken)
+			ts.app(argName)
 			ts.app(":")
 			arg.Value.tsType(mappings, scalars, structs, ts, arg.JSONInfo)
-			callArgs = append(callArgs, arg.Name)
+			callArgs = append(callArgs, argName)
 			argCount++
 		}
 		ts.app("):")
@@ -63,6 +78,7 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 		countReturns := 0
 		countInnerReturns := 0
 		responseObjectPrefix := ""
+		responseName := uniqueName("response", taken)
 		responseObject := "return {"
 
 		for index, retField := range method.Return {
@@ -92,7 +108,7 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 			countReturns++
 			returnTypeTS.app(retArgName)
 			returnTypeTS.app(":")
-			responseObject += responseObjectPrefix + retArgName + " : response[" + strconv.Itoa(index) + "]"
+			responseObject += responseObjectPrefix + retArgName + " : " + responseName + "[" + strconv.Itoa(index) + "]"
 			retField.Value.tsType(mappings, scalars, structs, returnTypeTS, retField.JSONInfo)
 			responseObjectPrefix = ", "
 		}
@@ -121,7 +137,7 @@ func renderTypescriptClient(service *Service, mappings config.TypeScriptMappings
 		} else if countReturns == 1 {
 			ts.l("return (await " + call + ")[0]")
 		} else {
-			ts.l("const response = await " + call)
+			ts.l("const " + responseName + " = await " + call)
 			ts.l(responseObject)
 		}
 
-- 
2.43.0


From 88d2b71a0131f360d32f48139cb67ace0092f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:19 +0000
Subject: [PATCH 48/55] fix: errors are any in TypeScript

---
 typescript.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typescript.go b/typescript.go
index d1b923f..8a2afe1 100644
--- a/typescript.go
+++ b/typescript.go
@@ -135,6 +135,8 @@ func tsTypeFromScalarType(scalarType ScalarType) string {
 		return "number"
 	case ScalarTypeBool:
 		return "boolean"
+	case "error":
+		return "any"
 	}
 	return string(scalarType)
 }
-- 
2.43.0


From 46cc514734d3e518f7a33a342624cb7663a06bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 49/55] fix: read struct tags written as interpreted strings

---
 typereader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/typereader.go b/typereader.go
index 8f24ffb..2afbc70 100644
--- a/typereader.go
+++ b/typereader.go
@@ -6,6 +6,7 @@ import (
 	"go/types"
 	"os"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"gopkg.in/yaml.v2"
@@ -338,7 +339,9 @@ func readField(astField *ast.Field, fileImports fileImportSpecMap) (names []stri
 	v = &Value{}
 	v.loadExpr(astField.Type, fileImports)
 	if astField.Tag != nil {
-		jsonInfo = extractJSONInfo(astField.Tag.Value[1 : len(astField.Tag.Value)-1])
+		if tag, err := strconv.Unquote(astField.Tag.Value); err == nil {
+			jsonInfo = extractJSONInfo(tag)
+		}
 	}
 	return
 }
-- 
2.43.0


From 7810aaca4202396cea021aaa09e0da3e2c3f7c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 50/55] fix: leave out unexported fields with a non-ASCII first
 letter

---
 typereader.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/typereader.go b/typereader.go
index 2afbc70..0041551 100644
--- a/typereader.go
+++ b/typereader.go
@@ -366,8 +366,7 @@ func readFieldList(fieldList []*ast.Field, fileImports fileImportSpecMap) (field
 						})
 						continue
 					}
-				} else if strings.Compare(strings.ToLower(name[:1]), name[:1]) == 0 {
-					// this is not unicode proof
+				} else if !ast.IsExported(name) {
 					continue
 				} else if jsonInfo != nil && jsonInfo.Union {
 					unionFields = append(unionFields, &Field{
-- 
2.43.0


From 5882015f7015459f33908859348d726e9772d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 51/55] fix: a field tagged json:"-," is named - in JSON, not
 ignored

---
 typereader.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/typereader.go b/typereader.go
index 0041551..5dc63c5 100644
--- a/typereader.go
+++ b/typereader.go
@@ -100,10 +100,10 @@ func extractJSONInfo(tag string) *JSONInfo {
 	ignore := false
 
 	if len(jsonTags) > 0 {
-		switch jsonTags[0] {
-		case "":
+		switch {
+		case jsonTags[0] == "":
 			// do nothing
-		case "-":
+		case jsonTags[0] == "-" && len(jsonTags) == 1:
 			ignore = true
 		default:
 			name = jsonTags[0]
-- 
2.43.0


From 694fe52e12812fcf5f23f7fd5166fe031f6f3315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:29 +0000
Subject: [PATCH 52/55] fix: promised headers replace default headers of the
 same name in any case

---
 client.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/client.go b/client.go
index cc34c12..ff18a0d 100644
--- a/client.go
+++ b/client.go
@@ -50,6 +50,13 @@ func newRequest(ctx context.Context, url string, contentType string, buffer *byt
 	if len(headers) > 0 {
 		request.Header = headers
 	}
+	// default headers of the same names are replaced, however they are written
+	for name := range request.Header {
+		switch http.CanonicalHeaderKey(name) {
+		case "Content-Type", "Accept", HeaderServiceToService:
+			delete(request.Header, name)
+		}
+	}
 	request.Header.Set("Content-Type", contentType)
 	request.Header.Set("Accept", contentType)
 	request.Header.Set(HeaderServiceToService, "true")
-- 
2.43.0


From c4cf14d62c84aab3dd761cddb678a35c9d5cd2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 53/55] fix: constants of a type that differ only in its prefix
 are no duplicate enum members

---
 typescript.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/typescript.go b/typescript.go
index 8a2afe1..85cba8b 100644
--- a/typescript.go
+++ b/typescript.go
@@ -269,6 +269,21 @@ func enumMemberName(typeName, name string) string {
 	return member
 }
 
+// enumMemberNames are the names of the constants of a type, without its prefix as long as they differ
+func enumMemberNames(typeName string, names []string) []string {
+	members := make([]string, 0, len(names))
+	seen := map[string]bool{}
+	for _, name := range names {
+		member := enumMemberName(typeName, name)
+		if seen[member] {
+			return names
+		}
+		seen[member] = true
+		members = append(members, member)
+	}
+	return members
+}
+
 func renderTypescriptStructsToPackages(
 	structs map[string]*Struct,
 	mappings config.TypeScriptMappings,
@@ -315,8 +330,9 @@ func renderTypescriptStructsToPackages(
 					}
 					sort.Strings(keys)
 					packageCodeMap[packageConstantTypeName].l("export enum " + packageConstantTypeName + " {").ind(1)
-					for _, k := range keys {
-						packageCodeMap[packageConstantTypeName].l(enumMemberName(packageConstantTypeName, k) + " = " + packageConstantTypeValuesList[k].Value + ",")
+					members := enumMemberNames(packageConstantTypeName, keys)
+					for i, k := range keys {
+						packageCodeMap[packageConstantTypeName].l(members[i] + " = " + packageConstantTypeValuesList[k].Value + ",")
 					}
 					packageCodeMap[packageConstantTypeName].ind(-1).l("}")
 				} else if packageConstantTypeValuesString, ok := packageConstantTypeValues.(string); ok {
-- 
2.43.0


From ad02ca05c81aafe5eb913373c030da48731a46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:36 +0000
Subject: [PATCH 54/55] fix: TypeScript names of imported packages are
 identifiers for every import path

---
 build.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/build.go b/build.go
index fd856ac..a884c25 100644
--- a/build.go
+++ b/build.go
@@ -9,8 +9,10 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"slices"
 	"sort"
 	"strings"
+	"unicode"
 
 	"golang.org/x/tools/imports"
 
@@ -18,7 +20,6 @@ import (
 )
 
 func deriveCommonJSMapping(conf *config.Config) {
-	replacer := strings.NewReplacer(".", "_", "/", "_", "-", "_")
 	packageNames := make([]string, 0, len(conf.Mappings))
 	for packageName := range conf.Mappings {
 		packageNames = append(packageNames, packageName)
@@ -26,7 +27,7 @@ func deriveCommonJSMapping(conf *config.Config) {
 	sort.Strings(packageNames)
 	taken := map[string]bool{}
 	for _, packageName := range packageNames {
-		module := replacer.Replace(packageName)
+		module := moduleIdentifier(packageName)
 		for taken[module] {
 			module += "_"
 		}
@@ -35,6 +36,20 @@ func deriveCommonJSMapping(conf *config.Config) {
 	}
 }
 
+// moduleIdentifier derives the name a package is imported under in TypeScript
+func moduleIdentifier(packageName string) string {
+	module := strings.Map(func(r rune) rune {
+		if unicode.IsLetter(r) || unicode.IsDigit(r) {
+			return r
+		}
+		return '_'
+	}, packageName)
+	if (module != "" && unicode.IsDigit([]rune(module)[0])) || slices.Contains(tsReservedNames, module) {
+		module = "_" + module
+	}
+	return module
+}
+
 func relativeFilePath(a, b string) (r string, e error) {
 	r, e = filepath.Rel(path.Dir(a), b)
 	if e != nil {
-- 
2.43.0


From 95886846a618b4a7a7d77647680c1d8e97dd221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:01 +0000
Subject: [PATCH 55/55] fix: import TypeScript modules of names that do not
 begin with an ASCII letter

---
 build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build.go b/build.go
index a884c25..992b660 100644
--- a/build.go
+++ b/build.go
@@ -61,7 +61,7 @@ func relativeFilePath(a, b string) (r string, e error) {
 
 // usesModule tells if a name of the module is used, the name may end another one or be part of a comment or string
 func usesModule(code string, module string) bool {
-	return regexp.MustCompile(`(^|[^\w$./"'-]|\.\.\.)` + regexp.QuoteMeta(module) + `\.\w`).MatchString(code)
+	return regexp.MustCompile(`(^|[^\p{L}\p{Nd}_$./"'-]|\.\.\.)` + regexp.QuoteMeta(module) + `\.[\p{L}_]`).MatchString(code)
 }
 
 func commonJSImports(conf *config.Config, c *code, tsFilename string, code string) {
-- 
2.43.0

