From 16d6071747e667e30549aabb1a925126e106a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 01/20] fix: honour the sign and name of time zones in dates

An offset of less than an hour west of GMT lost its sign when a date was
printed ([+0.50:XXX]) or parsed ([-0.50:XXX]), the offset was ignored for
zones named UTC, and zone names time.Parse does not take for abbreviations
were refused although the format allows them.
---
 types.go | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/types.go b/types.go
index dda6a3f..a258dc8 100644
--- a/types.go
+++ b/types.go
@@ -104,7 +104,7 @@ var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]
 // and defaults to GMT if a time zone is not provided, as per the OFX spec.
 // Leading and trailing whitespace is ignored.
 func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
-	var value, zone, zoneFormat string
+	var value string
 	err := d.DecodeElement(&value, &start)
 	if err != nil {
 		return err
@@ -113,12 +113,14 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 	value = strings.SplitN(value, "]", 2)[0]
 	value = strings.TrimSpace(value)
 
+	// Default to GMT if no time zone was specified
+	location := gmt
+
 	// Split the time zone off, if any
 	split := strings.SplitN(value, "[", 2)
 	if len(split) == 2 {
-		value = split[0]
-		zoneFormat = " -0700"
-		zone = strings.TrimRight(split[1], "]")
+		value = strings.TrimSpace(split[0])
+		zone := strings.TrimRight(split[1], "]")
 
 		matches := ofxDateZoneRegex.FindStringSubmatch(zone)
 		if matches == nil {
@@ -130,6 +132,9 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 		if err != nil {
 			return err
 		}
+		if zonehours < -24 || zonehours > 24 {
+			return errors.New("Invalid OFX Date timezone offset: " + zone)
+		}
 		if len(matches[3]) > 0 {
 			zoneminutes, err = strconv.Atoi(matches[3])
 			if err != nil {
@@ -137,26 +142,24 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 			}
 			zoneminutes = zoneminutes * 60 / 100
 		}
-		zone = fmt.Sprintf(" %+03d%02d", zonehours, zoneminutes)
+		// The sign applies to the fractional part too, even if there are no
+		// whole hours to carry it
+		if strings.HasPrefix(matches[1], "-") {
+			zoneminutes = -zoneminutes
+		}
 
 		// Get the time zone name if it's there, default to GMT if the offset
 		// is 0 and a name isn't supplied
-		if len(matches[5]) > 0 {
-			zone = zone + " " + matches[5]
-			zoneFormat = zoneFormat + " MST"
-		} else if zonehours == 0 && zoneminutes == 0 {
-			zone = zone + " GMT"
-			zoneFormat = zoneFormat + " MST"
+		zonename := matches[5]
+		if len(zonename) == 0 && zonehours == 0 && zoneminutes == 0 {
+			zonename = "GMT"
 		}
-	} else {
-		// Default to GMT if no time zone was specified
-		zone = " +0000 GMT"
-		zoneFormat = " -0700 MST"
+		location = time.FixedZone(zonename, (zonehours*60+zoneminutes)*60)
 	}
 
 	// Try all the date formats, from longest to shortest
 	for _, format := range ofxDateFormats {
-		t, err := time.Parse(format+zoneFormat, value+zone)
+		t, err := time.ParseInLocation(format, value, location)
 		if err == nil {
 			od.Time = t
 			return nil
@@ -169,16 +172,15 @@ func (od *Date) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
 func (od Date) String() string {
 	format := od.Format(ofxDateFormats[0])
 	zonename, zoneoffset := od.Zone()
+	format += "["
 	if zoneoffset < 0 {
-		format += "[" + fmt.Sprintf("%+d", zoneoffset/3600)
-	} else {
-		format += "[" + fmt.Sprintf("%d", zoneoffset/3600)
+		format += "-"
+		zoneoffset = -zoneoffset
 	}
+	format += fmt.Sprintf("%d", zoneoffset/3600)
 	fractionaloffset := (zoneoffset % 3600) / 36
 	if fractionaloffset > 0 {
 		format += "." + fmt.Sprintf("%02d", fractionaloffset)
-	} else if fractionaloffset < 0 {
-		format += "." + fmt.Sprintf("%02d", -fractionaloffset)
 	}
 
 	if len(zonename) > 0 {
-- 
2.43.0


From 54225614cff4409ef7b1657ae22462e6b08585b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 02/20] fix: refuse to marshal documents of an invalid version

Request.Marshal and Response.Marshal ignored the error of writeHeader and
returned a document without any header.
---
 request.go  | 4 +++-
 response.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 4c31f9d..bcc8322 100644
--- a/request.go
+++ b/request.go
@@ -81,7 +81,9 @@ func (oq *Request) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, oq.Version, oq.carriageReturn)
+	if err := writeHeader(&b, oq.Version, oq.carriageReturn); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	if oq.indent {
diff --git a/response.go b/response.go
index 61f471e..888b1d0 100644
--- a/response.go
+++ b/response.go
@@ -415,7 +415,9 @@ func (or *Response) Marshal() (*bytes.Buffer, error) {
 	var b bytes.Buffer
 
 	// Write the header appropriate to our version
-	writeHeader(&b, or.Version, false)
+	if err := writeHeader(&b, or.Version, false); err != nil {
+		return nil, err
+	}
 
 	encoder := xml.NewEncoder(&b)
 	encoder.Indent("", "    ")
-- 
2.43.0


From e94f1850c20b60fe93fc019011fe925794b44ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 03/20] fix: accept corrected transactions with a valid action

The condition was inverted: a transaction with CORRECTFITID was refused
exactly if its CORRECTACTION was valid.
---
 bank.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bank.go b/bank.go
index 53a7015..19caefc 100644
--- a/bank.go
+++ b/bank.go
@@ -140,7 +140,7 @@ func (t Transaction) Valid(version ofxVersion) (bool, error) {
 		return false, errors.New("Transaction.DtPosted not filled")
 	} else if len(t.FiTID) == 0 {
 		return false, errors.New("Transaction.FiTID empty")
-	} else if len(t.CorrectFiTID) > 0 && t.CorrectAction.Valid() {
+	} else if len(t.CorrectFiTID) > 0 && !t.CorrectAction.Valid() {
 		return false, errors.New("Transaction.CorrectFiTID nonempty but CorrectAction invalid")
 	} else if len(t.Name) > 0 && t.Payee != nil {
 		return false, errors.New("Only one of Transaction.Name and Payee may be specified")
-- 
2.43.0


From 1662992d3aadc4d064c7b71084c5e4bdd78449ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:23 +0000
Subject: [PATCH 04/20] fix: only a currency rate of zero is zero

The numerator was truncated to 64 bits first.
---
 common.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common.go b/common.go
index bfbaeb3..dc39590 100644
--- a/common.go
+++ b/common.go
@@ -363,7 +363,7 @@ type Currency struct {
 
 // Valid returns whether the Currency is valid according to the OFX spec
 func (c Currency) Valid() (bool, error) {
-	if c.CurRate.IsInt() && c.CurRate.Num().Int64() == 0 {
+	if c.CurRate.Sign() == 0 {
 		return false, errors.New("CurRate may not be zero")
 	} else if ok, err := c.CurSym.Valid(); !ok {
 		return false, err
-- 
2.43.0


From d8761ca2db20a4bc6f59cba239a011315e835b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:24 +0000
Subject: [PATCH 05/20] fix: read 401(k) loans, contributions and withdrawals

LOANINFO made the whole response fail to parse, CONTRIBINFO and
WITHDRAWALS were dropped.
---
 invstmt.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/invstmt.go b/invstmt.go
index 6cd883c..33d39b2 100644
--- a/invstmt.go
+++ b/invstmt.go
@@ -1390,7 +1390,7 @@ type VestInfo struct {
 
 // LoanInfo represents a loan outstanding against this 401(k) account
 type LoanInfo struct {
-	XMLName               xml.Name    `xml:"VESTINFO"`
+	XMLName               xml.Name    `xml:"LOANINFO"`
 	LoanID                String      `xml:"LOANID"`                          // Identifier of this loan
 	LoanDesc              String      `xml:"LOANDESC,omitempty"`              // Loan description
 	InitialLoanBal        Amount      `xml:"INITIALLOANBAL,omitempty"`        // Initial loan balance
@@ -1430,7 +1430,7 @@ type Inv401KSummaryPeriod struct {
 	DtStart       Date                     `xml:"DTSTART"`
 	DtEnd         Date                     `xml:"DTEND"`
 	Contributions *Inv401KSummaryAggregate `xml:"CONTRIBUTIONS,omitempty"` // 401(k) contribution aggregate. Note: this includes loan payments.
-	Withdrawls    *Inv401KSummaryAggregate `xml:"WITHDRAWLS,omitempty"`    // 401(k) withdrawals aggregate. Note: this includes loan withdrawals.
+	Withdrawls    *Inv401KSummaryAggregate `xml:"WITHDRAWALS,omitempty"`   // 401(k) withdrawals aggregate. Note: this includes loan withdrawals.
 	Earnings      *Inv401KSummaryAggregate `xml:"EARNINGS,omitempty"`      // 401(k) earnings aggregate. This is the market value change. It includes dividends/interest, and capital gains - realized and unrealized.
 }
 
@@ -1453,7 +1453,7 @@ type Inv401K struct {
 	StartOfYear         *Date                 `xml:"MATCHINFO>STARTOFYEAR,omitempty"`       // Specifies when the employer contribution max is reset. Some plans have a maximum based on the company fiscal year rather than calendar year. Assume calendar year if omitted. Only the month and day (MMDD) are used; year (YYYY) and time are ignored
 	BaseMatchAmt        Amount                `xml:"MATCHINFO>BASEMATCHAMT"`                // Specifies a fixed dollar amount contributed by the employer if the employee participates in the plan at all. This may be present in addition to the <MATCHPCT>. $0 if omitted
 	BaseMatchPct        Amount                `xml:"MATCHINFO>BASEMATCHPCT"`                // Specifies a fixed percent of employee salary matched if the employee participates in the plan at all. This may be present in addition to the MATCHPCT>. 0% if omitted. Base match in a year is BASEMATCHPCT up to the BASEMATCHAMT,if provided
-	ContribInfo         []ContribSecurity     `xml:"CONTRIBINTO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
+	ContribInfo         []ContribSecurity     `xml:"CONTRIBINFO>CONTRIBSECURITY"`           // Aggregate to describe how new contributions are distributed among the available securities.
 	CurrentVestPct      Amount                `xml:"CURRENTVESTPCT,omitempty"`              // Estimated percentage of employer contributions vested as of the current date. If omitted, assume 100%
 	VestInfo            []VestInfo            `xml:"VESTINFO,omitempty"`                    // Vest change dates. Provides the vesting percentage as of any particular past, current, or future date. 0 or more.
 	LoanInfo            []LoanInfo            `xml:"LOANINFO,omitempty"`                    // List of any loans outstanding against this account
-- 
2.43.0


From 701de13166b4106876ae1413f31dbdd4d522862d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 06/20] fix: know the leaf elements later SGML versions leave
 unclosed

Elements after an unclosed element missing from the list (SUBACCTFUND, and
those added after OFX 1.0.3) were taken for its children and lost.
---
 leaf_elements.go | 93 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 93 insertions(+)

diff --git a/leaf_elements.go b/leaf_elements.go
index a888caa..54e03a1 100644
--- a/leaf_elements.go
+++ b/leaf_elements.go
@@ -8,9 +8,15 @@ package ofxgo
 //
 // Generated using the following command with the 1.0.3 SPEC .dtd file:
 //   # sed -rn 's/^<!ELEMENT\s+([A-Z0-9]+)\s+-\s+[oO]\s+%.*TYPE\s*>.*$/\t"\1",/p' *.dtd | sort
+//
+// SUBACCTFUND (which this command misses) and the leaf elements this package
+// supports from later versions of the spec were added by hand, since SGML
+// responses of versions up to 1.6.0 may leave them unclosed, too.
 var ofxLeafElements = []string{
 	"ACCESSKEY",
+	"ACCESSTOKENREQ",
 	"ACCRDINT",
+	"ACCTCLASSIFICATION",
 	"ACCTID",
 	"ACCTKEY",
 	"ACCTREQUIRED",
@@ -22,6 +28,9 @@ var ofxLeafElements = []string{
 	"ADJDATE",
 	"ADJDESC",
 	"ADJNO",
+	"AFTERTAX",
+	"AFTERTAXCONTRIBAMT",
+	"AFTERTAXCONTRIBPCT",
 	"APPID",
 	"APPVER",
 	"ASSETCLASS",
@@ -40,8 +49,11 @@ var ofxLeafElements = []string{
 	"BALOPEN",
 	"BALTYPE",
 	"BANKID",
+	"BASEMATCHAMT",
+	"BASEMATCHPCT",
 	"BILLREFINFO",
 	"BRANCHID",
+	"BROKERCONTACTINFO",
 	"BROKERID",
 	"BUYPOWER",
 	"BUYTYPE",
@@ -61,9 +73,12 @@ var ofxLeafElements = []string{
 	"CANUSEDESC",
 	"CANUSERANGE",
 	"CASESEN",
+	"CASHADVBALAMT",
+	"CASHBAL",
 	"CHARTYPE",
 	"CHECKING",
 	"CHECKNUM",
+	"CHECKSUP",
 	"CHGPINFIRST",
 	"CHGUSERINFO",
 	"CHKANDDEB",
@@ -90,6 +105,8 @@ var ofxLeafElements = []string{
 	"CSPHONE",
 	"CURDEF",
 	"CURRATE",
+	"CURRENTLOANBAL",
+	"CURRENTVESTPCT",
 	"CURSYM",
 	"DATEBIRTH",
 	"DAYPHONE",
@@ -98,6 +115,8 @@ var ofxLeafElements = []string{
 	"DEBADJ",
 	"DEBTCLASS",
 	"DEBTTYPE",
+	"DEFERPCTAFTERTAX",
+	"DEFERPCTPRETAX",
 	"DENOMINATOR",
 	"DEPANDCREDIT",
 	"DESC",
@@ -122,10 +141,12 @@ var ofxLeafElements = []string{
 	"DTDUE",
 	"DTEND",
 	"DTEXPIRE",
+	"DTIMAGEAVAIL",
 	"DTINFOCHG",
 	"DTMAT",
 	"DTNEXT",
 	"DTOPEN",
+	"DTPAYROLL",
 	"DTPLACED",
 	"DTPMTDUE",
 	"DTPMTPRC",
@@ -139,13 +160,17 @@ var ofxLeafElements = []string{
 	"DTSETTLE",
 	"DTSTART",
 	"DTTRADE",
+	"DTTRAN",
 	"DTUSER",
 	"DTXFERPRC",
 	"DTXFERPRJ",
 	"DTYIELDASOF",
 	"DURATION",
 	"EMAIL",
+	"EMPLOYERCONTACTINFO",
+	"EMPLOYERNAME",
 	"EVEPHONE",
+	"EXTDNAME",
 	"EXTDPMTCHK",
 	"EXTDPMTFOR",
 	"FAXPHONE",
@@ -169,14 +194,31 @@ var ofxLeafElements = []string{
 	"GETMIMESUP",
 	"HASEXTDPMT",
 	"HELDINACCT",
+	"HOLDERTYPE",
 	"IDSCOPE",
+	"IMAGEDELAY",
+	"IMAGEREF",
+	"IMAGEREFTYPE",
+	"IMAGETTL",
+	"IMAGETYPE",
+	"INC401K",
+	"INC401KBAL",
 	"INCBAL",
 	"INCIMAGES",
 	"INCLUDE",
+	"INCLUDEPENDING",
 	"INCOMETYPE",
 	"INCOO",
+	"INCTRANIMAGE",
+	"INCTRANIMG",
 	"INITIALAMT",
+	"INITIALLOANBAL",
 	"INTLXFERFEE",
+	"INTRATE",
+	"INTRATECASH",
+	"INTRATEPURCH",
+	"INTRATEXFER",
+	"INV401KSOURCE",
 	"INVACCTTYPE",
 	"INVALIDACCTTYPE",
 	"INVDATE",
@@ -190,12 +232,34 @@ var ofxLeafElements = []string{
 	"LITMAMT",
 	"LITMDESC",
 	"LOAD",
+	"LOANDESC",
+	"LOANID",
+	"LOANINTEREST",
+	"LOANINTERESTTODATE",
+	"LOANMATURITYDATE",
+	"LOANNEXTPMTDATE",
+	"LOANPMTAMT",
+	"LOANPMTFREQ",
+	"LOANPMTSINITIAL",
+	"LOANPMTSREMAINING",
+	"LOANPRINCIPAL",
+	"LOANRATE",
+	"LOANSTARTDATE",
+	"LOANTOTALPROJINTEREST",
 	"LOSTSYNC",
 	"MAILSUP",
 	"MARGINBALANCE",
 	"MARKDOWN",
 	"MARKUP",
+	"MATCH",
+	"MATCHCONTRIBAMT",
+	"MATCHCONTRIBPCT",
+	"MATCHPCT",
+	"MATURITYAMOUNT",
+	"MATURITYDATE",
 	"MAX",
+	"MAXMATCHAMT",
+	"MAXMATCHPCT",
 	"MEMO",
 	"MESSAGE",
 	"MFACHALLENGEFIRST",
@@ -206,6 +270,7 @@ var ofxLeafElements = []string{
 	"MFTYPE",
 	"MIDDLENAME",
 	"MIN",
+	"MINBALREQ",
 	"MINPMTDUE",
 	"MINUNITS",
 	"MKTGINFO",
@@ -227,15 +292,25 @@ var ofxLeafElements = []string{
 	"OPTSELLTYPE",
 	"OPTTYPE",
 	"ORG",
+	"OTHERNONVEST",
+	"OTHERNONVESTAMT",
+	"OTHERNONVESTPCT",
+	"OTHERVEST",
+	"OTHERVESTAMT",
+	"OTHERVESTPCT",
+	"OVERDRAFTLIMIT",
 	"PARVALUE",
 	"PAYACCT",
 	"PAYANDCREDIT",
 	"PAYEEID",
 	"PAYEELSTID",
 	"PAYINSTRUCT",
+	"PENALTY",
 	"PERCENT",
 	"PHONE",
 	"PINCH",
+	"PLANID",
+	"PLANJOINDATE",
 	"PMTBYADDR",
 	"PMTBYPAYEEID",
 	"PMTBYXFER",
@@ -244,8 +319,15 @@ var ofxLeafElements = []string{
 	"POSTALCODE",
 	"POSTPROCWND",
 	"POSTYPE",
+	"PRETAX",
+	"PRETAXCONTRIBAMT",
+	"PRETAXCONTRIBPCT",
+	"PRIORYEARCONTRIB",
 	"PROCDAYSOFF",
 	"PROCENDTM",
+	"PROFITSHARING",
+	"PROFITSHARINGCONTRIBAMT",
+	"PROFITSHARINGCONTRIBPCT",
 	"PURANDADV",
 	"RATING",
 	"RECSRVRTID",
@@ -259,6 +341,12 @@ var ofxLeafElements = []string{
 	"RELTYPE",
 	"RESPFILEER",
 	"RESTRICTION",
+	"REVERSALFITID",
+	"REWARDBAL",
+	"REWARDEARNED",
+	"ROLLOVER",
+	"ROLLOVERCONTRIBAMT",
+	"ROLLOVERCONTRIBPCT",
 	"SECLISTRQDNLD",
 	"SECNAME",
 	"SECURED",
@@ -276,7 +364,9 @@ var ofxLeafElements = []string{
 	"SPECIAL",
 	"SPNAME",
 	"SRVRTID",
+	"STARTOFYEAR",
 	"STATE",
+	"STATEWITHHOLDING",
 	"STOCKTYPE",
 	"STOPPRICE",
 	"STPCHKFEE",
@@ -284,6 +374,7 @@ var ofxLeafElements = []string{
 	"STSVIAMODS",
 	"SUBACCT",
 	"SUBACCTFROM",
+	"SUBACCTFUND",
 	"SUBACCTSEC",
 	"SUBACCTTO",
 	"SUBJECT",
@@ -332,6 +423,8 @@ var ofxLeafElements = []string{
 	"USPRODUCTTYPE",
 	"VALUE",
 	"VER",
+	"VESTDATE",
+	"VESTPCT",
 	"WITHHOLDING",
 	"XFERDAYSWITH",
 	"XFERDEST",
-- 
2.43.0


From 54f2047e1f0ab849b0315e10d0c9b922a903e9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 07/20] fix: close the bodies and connections of abandoned
 responses

A response with a status other than 200, the empty response preceding
Vanguard's retry and every connection to Discover were left open.
---
 client.go              |  3 +++
 discovercard_client.go | 32 +++++++++++++++++++++++++++-----
 vanguard_client.go     |  3 +++
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/client.go b/client.go
index a9d43dd..db66035 100644
--- a/client.go
+++ b/client.go
@@ -93,6 +93,9 @@ func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
 func clientRequest(c Client, r *Request) (*Response, error) {
 	response, err := c.RequestNoParse(r)
 	if err != nil {
+		if response != nil {
+			response.Body.Close()
+		}
 		return nil, err
 	}
 	defer response.Body.Close()
diff --git a/discovercard_client.go b/discovercard_client.go
index 820f448..7325ad2 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -61,20 +61,41 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		host += ":443"
 	}
 
-	// BUGBUG: cannot do defer conn.Close() until body is read,
-	// we are "leaking" a socket here, but it will be finalized
 	conn, err := tls.Dial("tcp", host, nil)
 	if err != nil {
 		return nil, err
 	}
 
-	fmt.Fprint(conn, headers)
-	_, err = io.Copy(conn, buf)
+	if _, err = io.WriteString(conn, headers); err != nil {
+		conn.Close()
+		return nil, err
+	}
+	if _, err = io.Copy(conn, buf); err != nil {
+		conn.Close()
+		return nil, err
+	}
+
+	response, err := http.ReadResponse(bufio.NewReader(conn), nil)
 	if err != nil {
+		conn.Close()
 		return nil, err
 	}
+	response.Body = &discoverCardBody{response.Body, conn}
+	return response, nil
+}
+
+// discoverCardBody is the body of a response which closes the connection it is
+// read from, too
+type discoverCardBody struct {
+	io.ReadCloser
+	conn io.Closer
+}
 
-	return http.ReadResponse(bufio.NewReader(conn), nil)
+// Close closes the connection first: closing the body reads what is left of it
+func (b *discoverCardBody) Close() error {
+	err := b.conn.Close()
+	b.ReadCloser.Close()
+	return err
 }
 
 // RawRequest is a convenience wrapper around http.Post. It is exposed only for
@@ -90,6 +111,7 @@ func (c *DiscoverCardClient) RawRequest(URL string, r io.Reader) (*http.Response
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
diff --git a/vanguard_client.go b/vanguard_client.go
index 2dacd67..d5b560f 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -100,6 +100,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	if response.StatusCode != 200 {
+		response.Body.Close()
 		return nil, errors.New("OFXQuery request status: " + response.Status)
 	}
 
@@ -124,6 +125,8 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 	// detect an empty response with cookies set that didn't have any errors,
 	// re-try the request while sending their cookies back to them.
 	if response != nil && response.ContentLength <= 0 && len(response.Cookies()) > 0 {
+		response.Body.Close()
+
 		b, err = r.Marshal()
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 2dbfe4fa9b335be905ce0d6b6da214db3c084285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 08/20] fix: escape the request target sent to Discover

The decoded path was written to the request line (so that %0D%0A or %20
in it broke the request apart), and the query was dropped.
---
 discovercard_client.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 7325ad2..3921be0 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -42,11 +42,6 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		return nil, err
 	}
 
-	path := url.Path
-	if path == "" {
-		path = "/"
-	}
-
 	// Discover requires only these headers and in this exact order, or it
 	// returns HTTP 403
 	headers := fmt.Sprintf("POST %s HTTP/1.1\r\n"+
@@ -54,7 +49,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 		"Host: %s\r\n"+
 		"Content-Length: %d\r\n"+
 		"Connection: Keep-Alive\r\n"+
-		"\r\n", path, url.Hostname(), buf.Len())
+		"\r\n", url.RequestURI(), url.Hostname(), buf.Len())
 
 	host := url.Host
 	if url.Port() == "" {
-- 
2.43.0


From 1b58dd67b8d240e823e2ec8fabd43f0fad8c1ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:50 +0000
Subject: [PATCH 09/20] fix: print statements without transactions, payees or
 whole balances

The command-line client crashed on responses lacking an optional part, and
printed cash balances only if they were whole numbers.
---
 cmd/ofx/banktransactions.go | 3 +++
 cmd/ofx/cctransactions.go   | 5 ++++-
 cmd/ofx/invtransactions.go  | 6 ++++--
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/ofx/banktransactions.go b/cmd/ofx/banktransactions.go
index 70402e5..46bf89f 100644
--- a/cmd/ofx/banktransactions.go
+++ b/cmd/ofx/banktransactions.go
@@ -73,6 +73,9 @@ func bankTransactions() {
 
 	if stmt, ok := response.Bank[0].(*ofxgo.StatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
+		if stmt.BankTranList == nil {
+			return
+		}
 		fmt.Println("Transactions:")
 		for _, tran := range stmt.BankTranList.Transactions {
 			printTransaction(stmt.CurDef, &tran)
diff --git a/cmd/ofx/cctransactions.go b/cmd/ofx/cctransactions.go
index 3db9b3f..c760537 100644
--- a/cmd/ofx/cctransactions.go
+++ b/cmd/ofx/cctransactions.go
@@ -62,6 +62,9 @@ func ccTransactions() {
 
 	if stmt, ok := response.CreditCard[0].(*ofxgo.CCStatementResponse); ok {
 		fmt.Printf("Balance: %s %s (as of %s)\n", stmt.BalAmt, stmt.CurDef, stmt.DtAsOf)
+		if stmt.BankTranList == nil {
+			return
+		}
 		fmt.Println("Transactions:")
 		for _, tran := range stmt.BankTranList.Transactions {
 			currency := stmt.CurDef
@@ -72,7 +75,7 @@ func ccTransactions() {
 			var name string
 			if len(tran.Name) > 0 {
 				name = string(tran.Name)
-			} else {
+			} else if tran.Payee != nil {
 				name = string(tran.Payee.Name)
 			}
 
diff --git a/cmd/ofx/invtransactions.go b/cmd/ofx/invtransactions.go
index c391b9b..566bac3 100644
--- a/cmd/ofx/invtransactions.go
+++ b/cmd/ofx/invtransactions.go
@@ -67,10 +67,12 @@ func invTransactions() {
 	}
 
 	if stmt, ok := response.InvStmt[0].(*ofxgo.InvStatementResponse); ok {
-		availCash := stmt.InvBal.AvailCash
-		if availCash.IsInt() && availCash.Num().Int64() != 0 {
+		if stmt.InvBal != nil && stmt.InvBal.AvailCash.Sign() != 0 {
 			fmt.Printf("Balance: %s %s (as of %s)\n", stmt.InvBal.AvailCash, stmt.CurDef, stmt.DtAsOf)
 		}
+		if stmt.InvTranList == nil {
+			return
+		}
 		for _, banktrans := range stmt.InvTranList.BankTransactions {
 			fmt.Printf("\nBank Transactions for %s subaccount:\n", banktrans.SubAcctFund)
 			for _, tran := range banktrans.Transactions {
-- 
2.43.0


From b583b7bdfc92ace49aba50def434445f293b61d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 10/20] fix: never follow redirects of requests to plain http

A redirect with status 307 or 308 from https to http repeated the whole
request, including the password, in plain text.
---
 basic_client.go    |  2 +-
 client.go          | 20 ++++++++++++++++++++
 vanguard_client.go |  4 ++--
 3 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/basic_client.go b/basic_client.go
index 7cf008b..fe49971 100644
--- a/basic_client.go
+++ b/basic_client.go
@@ -86,7 +86,7 @@ func (c *BasicClient) RawRequest(URL string, r io.Reader) (*http.Response, error
 	if c.UserAgent != "" {
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
-	response, err := httpClient.Do(request)
+	response, err := httpsOnly(httpClient).Do(request)
 	if err != nil {
 		return nil, err
 	}
diff --git a/client.go b/client.go
index db66035..37dd3aa 100644
--- a/client.go
+++ b/client.go
@@ -1,6 +1,7 @@
 package ofxgo
 
 import (
+	"errors"
 	"io"
 	"net/http"
 	"strings"
@@ -75,6 +76,25 @@ func GetClient(URL string, bc *BasicClient) Client {
 	return bc
 }
 
+// httpsOnly returns a copy of an http.Client which refuses to be redirected to
+// anything but https (a redirect may repeat the request's body)
+func httpsOnly(client *http.Client) *http.Client {
+	secure := *client
+	secure.CheckRedirect = func(req *http.Request, via []*http.Request) error {
+		if req.URL.Scheme != "https" {
+			return errors.New("Refusing to follow redirect of OFX request to non-https protocol")
+		}
+		if client.CheckRedirect != nil {
+			return client.CheckRedirect(req, via)
+		}
+		if len(via) >= 10 {
+			return errors.New("stopped after 10 redirects")
+		}
+		return nil
+	}
+	return &secure
+}
+
 // clientRequestNoParse can be used for building clients' RequestNoParse
 // methods if they require fairly standard behavior
 func clientRequestNoParse(c Client, r *Request) (*http.Response, error) {
diff --git a/vanguard_client.go b/vanguard_client.go
index d5b560f..de77e2d 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -64,7 +64,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 		request.Header.Set("User-Agent", c.UserAgent)
 	}
 	client := vanguardHttpClient()
-	response, err := client.Do(request)
+	response, err := httpsOnly(client).Do(request)
 	if err != nil {
 		return nil, err
 	}
@@ -94,7 +94,7 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 	}
 
 	client := vanguardHttpClient()
-	response, err := client.Do(request)
+	response, err := httpsOnly(client).Do(request)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d0bbe77547a9c71fff087f542e52c192e149f5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 11/20] fix: accept corporate investment accounts

---
 constants.go          | 67 +++++++++++++++++++++++++++++++++++++++++++
 generate_constants.py |  1 +
 signup.go             |  2 +-
 3 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/constants.go b/constants.go
index 732aada..ab41787 100644
--- a/constants.go
+++ b/constants.go
@@ -2628,6 +2628,73 @@ func NewSvcStatus(s string) (svcStatus, error) {
 	return e, nil
 }
 
+type invAcctType uint
+
+// InvAcctType* constants represent the type of ownership of an investment account
+const (
+	InvAcctTypeIndividual invAcctType = 1 + iota
+	InvAcctTypeJoint
+	InvAcctTypeTrust
+	InvAcctTypeCorporate
+)
+
+var invAcctTypes = [...]string{"INDIVIDUAL", "JOINT", "TRUST", "CORPORATE"}
+
+func (e invAcctType) Valid() bool {
+	// This check is mostly out of paranoia, ensuring e != 0 should be
+	// sufficient
+	return e >= InvAcctTypeIndividual && e <= InvAcctTypeCorporate
+}
+
+func (e invAcctType) String() string {
+	if e.Valid() {
+		return invAcctTypes[e-1]
+	}
+	return fmt.Sprintf("invalid invAcctType (%d)", e)
+}
+
+func (e *invAcctType) FromString(in string) error {
+	value := strings.TrimSpace(in)
+
+	for i, s := range invAcctTypes {
+		if s == value {
+			*e = invAcctType(i + 1)
+			return nil
+		}
+	}
+	*e = 0
+	return errors.New("Invalid InvAcctType: \"" + in + "\"")
+}
+
+func (e *invAcctType) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
+	var value string
+	err := d.DecodeElement(&value, &start)
+	if err != nil {
+		return err
+	}
+
+	return e.FromString(value)
+}
+
+func (e invAcctType) MarshalXML(enc *xml.Encoder, start xml.StartElement) error {
+	if !e.Valid() {
+		return nil
+	}
+	enc.EncodeElement(invAcctTypes[e-1], start)
+	return nil
+}
+
+// NewInvAcctType returns returns an 'enum' value of type invAcctType given its
+// string representation
+func NewInvAcctType(s string) (invAcctType, error) {
+	var e invAcctType
+	err := e.FromString(s)
+	if err != nil {
+		return 0, err
+	}
+	return e, nil
+}
+
 type usProductType uint
 
 // UsProductType* constants represent type of investment account (in the US)
diff --git a/generate_constants.py b/generate_constants.py
index b1e09da..1eaf86e 100755
--- a/generate_constants.py
+++ b/generate_constants.py
@@ -51,6 +51,7 @@ enums = {
     "HolderType": (["Individual", "Joint", "Custodial", "Trust", "Other"], "how the account is held"),
     "AcctClassification": (["Personal", "Business", "Corporate", "Other"], "the type of an account"),
     "SvcStatus": (["Avail", "Pend", "Active"], "the status of the account: AVAIL = Available, but not yet requested, PEND = Requested, but not yet available, ACTIVE = In use"),
+    "InvAcctType": (["Individual", "Joint", "Trust", "Corporate"], "the type of ownership of an investment account"),
     "UsProductType": (["401K", "403B", "IRA", "KEOGH", "Other", "SARSEP", "Simple", "Normal", "TDA", "Trust", "UGMA"], "type of investment account (in the US)"),
 }
 
diff --git a/signup.go b/signup.go
index 74feda2..c22b520 100644
--- a/signup.go
+++ b/signup.go
@@ -105,7 +105,7 @@ type InvAcctInfo struct {
 	UsProductType usProductType `xml:"USPRODUCTTYPE"`         // One of 401K, 403B, IRA, KEOGH, OTHER, SARSEP, SIMPLE, NORMAL, TDA, TRUST, UGMA
 	Checking      Boolean       `xml:"CHECKING"`              // Has check-writing privileges
 	SvcStatus     svcStatus     `xml:"SVCSTATUS"`             // One of AVAIL (available, but not yet requested), PEND (requested, but not yet available), ACTIVE
-	InvAcctType   holderType    `xml:"INVACCTTYPE,omitempty"` // One of INDIVIDUAL, JOINT, TRUST, CORPORATE
+	InvAcctType   invAcctType   `xml:"INVACCTTYPE,omitempty"` // One of INDIVIDUAL, JOINT, TRUST, CORPORATE
 	OptionLevel   String        `xml:"OPTIONLEVEL,omitempty"` // Text desribing option trading privileges
 }
 
-- 
2.43.0


From 853be9eb59ad0714e3e7e84224dfaebe41ca98bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:45 +0000
Subject: [PATCH 12/20] fix: do not write the name of a message set as an
 element of its own

---
 profile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/profile.go b/profile.go
index 8bacc60..433113b 100644
--- a/profile.go
+++ b/profile.go
@@ -71,7 +71,7 @@ type SignonInfo struct {
 // capabilities
 type MessageSet struct {
 	XMLName     xml.Name // <xxxMSGSETVn>
-	Name        string   // <xxxMSGSETVn> (copy of XMLName.Local)
+	Name        string   `xml:"-"`                                // <xxxMSGSETVn> (copy of XMLName.Local)
 	Ver         Int      `xml:"MSGSETCORE>VER"`                   // Message set version - should always match 'n' in <xxxMSGSETVn> of Name
 	URL         String   `xml:"MSGSETCORE>URL"`                   // URL where messages in this set are to be set
 	OfxSec      ofxSec   `xml:"MSGSETCORE>OFXSEC"`                // NONE or 'TYPE 1'
-- 
2.43.0


From b980898ae6c9ca6bed3afd4d39b37d8e08d1c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 13/20] fix: keep the user agent when retrying a Vanguard
 request with cookies

---
 vanguard_client.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/vanguard_client.go b/vanguard_client.go
index de77e2d..8a8b097 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -79,7 +79,7 @@ func (c *VanguardClient) RawRequest(URL string, r io.Reader) (*http.Response, er
 // rawRequestCookiesInsecureCiphers is RawRequest with the added features of
 // sending cookies and using a custom http.Client that enables older cipher
 // suites which are disabled by default
-func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.Cookie) (*http.Response, error) {
+func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, userAgent string, cookies []*http.Cookie) (*http.Response, error) {
 	if !strings.HasPrefix(URL, "https://") {
 		return nil, errors.New("Refusing to send OFX request with possible plain-text password over non-https protocol")
 	}
@@ -89,6 +89,9 @@ func rawRequestCookiesInsecureCiphers(URL string, r io.Reader, cookies []*http.C
 		return nil, err
 	}
 	request.Header.Set("Content-Type", "application/x-ofx")
+	if userAgent != "" {
+		request.Header.Set("User-Agent", userAgent)
+	}
 	for _, cookie := range cookies {
 		request.AddCookie(cookie)
 	}
@@ -132,7 +135,7 @@ func (c *VanguardClient) RequestNoParse(r *Request) (*http.Response, error) {
 			return nil, err
 		}
 
-		return rawRequestCookiesInsecureCiphers(r.URL, b, response.Cookies())
+		return rawRequestCookiesInsecureCiphers(r.URL, b, c.UserAgent, response.Cookies())
 	}
 
 	return response, err
-- 
2.43.0


From 751ad4e44d23dd77c28757fb3f34a2e880a6a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:18 +0000
Subject: [PATCH 14/20] fix: connect to port 443 for a Discover URL that ends
 its host in a colon

---
 discovercard_client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/discovercard_client.go b/discovercard_client.go
index 3921be0..cd9bc6f 100644
--- a/discovercard_client.go
+++ b/discovercard_client.go
@@ -53,7 +53,7 @@ func discoverCardHTTPPost(URL string, r io.Reader) (*http.Response, error) {
 
 	host := url.Host
 	if url.Port() == "" {
-		host += ":443"
+		host = strings.TrimSuffix(host, ":") + ":443"
 	}
 
 	conn, err := tls.Dial("tcp", host, nil)
-- 
2.43.0


From e23f1bdb062d0f6383740ddd355bfd7353c290e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:49 +0000
Subject: [PATCH 15/20] fix: report a response file that cannot be closed

---
 cmd/ofx/bankdownload.go    | 3 +++
 cmd/ofx/ccdownload.go      | 3 +++
 cmd/ofx/invdownload.go     | 3 +++
 cmd/ofx/profiledownload.go | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/cmd/ofx/bankdownload.go b/cmd/ofx/bankdownload.go
index 8465915..cb91289 100644
--- a/cmd/ofx/bankdownload.go
+++ b/cmd/ofx/bankdownload.go
@@ -84,6 +84,9 @@ func download() {
 	defer file.Close()
 
 	_, err = io.Copy(file, response.Body)
+	if err == nil {
+		err = file.Close()
+	}
 	if err != nil {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
diff --git a/cmd/ofx/ccdownload.go b/cmd/ofx/ccdownload.go
index 307f118..3884075 100644
--- a/cmd/ofx/ccdownload.go
+++ b/cmd/ofx/ccdownload.go
@@ -72,6 +72,9 @@ func ccDownload() {
 	defer file.Close()
 
 	_, err = io.Copy(file, response.Body)
+	if err == nil {
+		err = file.Close()
+	}
 	if err != nil {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
diff --git a/cmd/ofx/invdownload.go b/cmd/ofx/invdownload.go
index 7a57979..4d4d41b 100644
--- a/cmd/ofx/invdownload.go
+++ b/cmd/ofx/invdownload.go
@@ -82,6 +82,9 @@ func invDownload() {
 	defer file.Close()
 
 	_, err = io.Copy(file, response.Body)
+	if err == nil {
+		err = file.Close()
+	}
 	if err != nil {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
diff --git a/cmd/ofx/profiledownload.go b/cmd/ofx/profiledownload.go
index cca6986..8a7e0ce 100644
--- a/cmd/ofx/profiledownload.go
+++ b/cmd/ofx/profiledownload.go
@@ -74,6 +74,9 @@ func downloadProfile() {
 	defer file.Close()
 
 	_, err = io.Copy(file, response.Body)
+	if err == nil {
+		err = file.Close()
+	}
 	if err != nil {
 		fmt.Println("Error writing response to file:", err)
 		os.Exit(1)
-- 
2.43.0


From 90a46f52a956f173a4251cf969475184aabe77bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 16/20] fix: report failure when detect-settings finds no
 working settings

---
 cmd/ofx/detect_settings.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/ofx/detect_settings.go b/cmd/ofx/detect_settings.go
index 3881980..826e21d 100644
--- a/cmd/ofx/detect_settings.go
+++ b/cmd/ofx/detect_settings.go
@@ -118,6 +118,8 @@ func detectSettings() {
 			}
 		}
 	}
+	fmt.Println("No working settings found")
+	os.Exit(1)
 }
 
 const anonymous = "anonymous00000000000000000000000"
-- 
2.43.0


From 93a4ee1358f327bd3c6544b7fe113e16816644c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:23 +0000
Subject: [PATCH 17/20] fix: report failure when a dry run cannot print its
 request

---
 cmd/ofx/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/ofx/util.go b/cmd/ofx/util.go
index 33f5a65..142bf39 100644
--- a/cmd/ofx/util.go
+++ b/cmd/ofx/util.go
@@ -39,7 +39,7 @@ func printRequest(c ofxgo.Client, r *ofxgo.Request) {
 	b, err := r.Marshal()
 	if err != nil {
 		fmt.Println(err)
-		return
+		os.Exit(1)
 	}
 	fmt.Println(b)
 }
-- 
2.43.0


From 430a0fe8bbc2d8a29525204ced48ede9d94cbaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:00 +0000
Subject: [PATCH 18/20] fix: refuse responses with a closing element that
 matches no open one

In SGML mode the decoder closed every open element upon such an element,
which ended the response: whatever came after it was lost without an error.
---
 response.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/response.go b/response.go
index 888b1d0..44c4a01 100644
--- a/response.go
+++ b/response.go
@@ -361,6 +361,15 @@ func DecodeResponse(reader io.Reader) (*Response, error) {
 		if err != nil {
 			return nil, err
 		} else if ofxEnd, ok := tok.(xml.EndElement); ok && ofxEnd.Name.Local == "OFX" {
+			// A closing element that matches no open one makes a non-strict
+			// decoder close all of them, and is itself left pending. The
+			// rest of the response would be lost, so don't accept it.
+			r.Reset(strings.NewReader(""))
+			if tok, err := decoder.RawToken(); err == nil {
+				if end, ok := tok.(xml.EndElement); ok {
+					return nil, errors.New("Unexpected closing element: " + end.Name.Local)
+				}
+			}
 			return &or, nil // found closing XML element, so we're done
 		} else if start, ok := tok.(xml.StartElement); ok {
 			slice, ok := messageSlices[start.Name.Local]
-- 
2.43.0


From ecece19ff779a807d8168213338988e5b660686a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:14 +0000
Subject: [PATCH 19/20] fix: leave out time zone names which could not be read
 back

---
 types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/types.go b/types.go
index a258dc8..6e3d139 100644
--- a/types.go
+++ b/types.go
@@ -98,6 +98,7 @@ var ofxDateFormats = []string{
 	"20060102",
 }
 var ofxDateZoneRegex = regexp.MustCompile(`^([+-]?[0-9]+)(\.([0-9]{2}))?(:([A-Z]+))?$`)
+var ofxDateZoneNameRegex = regexp.MustCompile(`^[A-Z]+$`)
 
 // UnmarshalXML handles unmarshalling a Date from an SGML/XML string. It
 // attempts to unmarshal the valid date formats in order of decreasing length
@@ -183,7 +184,8 @@ func (od Date) String() string {
 		format += "." + fmt.Sprintf("%02d", fractionaloffset)
 	}
 
-	if len(zonename) > 0 {
+	// Leave out names which could not be read back, such as "-03"
+	if ofxDateZoneNameRegex.MatchString(zonename) {
 		return format + ":" + zonename + "]"
 	}
 	return format + "]"
-- 
2.43.0


From 24771c16029fa2ac1d4ad3b8858c1e947ce7e147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 20/20] fix: close the connections of Vanguard requests along
 with their responses

---
 vanguard_client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vanguard_client.go b/vanguard_client.go
index 8a8b097..60afb28 100644
--- a/vanguard_client.go
+++ b/vanguard_client.go
@@ -40,6 +40,9 @@ func vanguardHttpClient() *http.Client {
 
 	client := &http.Client{
 		Transport: &http.Transport{
+			// This transport isn't used again: don't leave its
+			// connection open, waiting for another request
+			DisableKeepAlives: true,
 			TLSClientConfig: &tls.Config{
 				CipherSuites: clientCiphers,
 			},
-- 
2.43.0

