#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, text, tests, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, note=note))


prop("C01", "Amounts are read exactly",
     "The text of an amount is read as exactly the rational number it denotes: an optional sign, decimal digits, and at most one decimal separator, a point or a comma alike, with surrounding white space ignored. Text that denotes no number is refused with an error, and no digit, sign or decimal place is lost however long the number is.",
     ["inputs"], "every text of an amount, of any length and with any bytes",
     "the tests read about ten fixed amounts; a mistake for one sign, separator or length combination passes them",
     ["types.go"], [("Amount.UnmarshalXML", "types.go: Amount.UnmarshalXML")],
     "texts of up to 6 (thorough 7) arbitrary bytes, and digit strings up to 18+ digits with every sign and separator position")
prop("C02", "Amounts are printed exactly and survive a round trip",
     "An amount that has a decimal expansion of at most 100 places is printed as the shortest plain decimal number denoting exactly its value (other amounts are rounded to 100 places), so that reading the text back yields an equal amount. Two amounts are equal exactly when they are the same rational number.",
     ["inputs"], "every pair of rational amounts",
     "the tests print a handful of amounts",
     ["types.go"], [("Amount.String", "types.go: Amount.String"), ("Amount.Equal", "types.go: Amount.Equal"), ("Amount.MarshalXML", "types.go: Amount.MarshalXML")],
     "numerators and denominators within the ranges given in the evidence")
prop("C03", "Dates are read as the instant they denote",
     "The text of a date (YYYYMMDD, alone or with HH, HHMM, HHMMSS or HHMMSS.XXX, optionally followed by a bracketed hour offset from GMT with an optional sign, an optional two-digit decimal fraction, and an optional zone name in capital letters; what follows the closing bracket is ignored) is read as exactly the instant it denotes, in GMT where no zone is given. Text that is not such a date, or names a day or time which does not exist, is refused with an error.",
     ["inputs"], "every text of a date: all days, times, fractions, offsets of either sign, zone names and malformed texts",
     "the tests read about fifteen fixed dates",
     ["types.go"], [("Date.UnmarshalXML", "types.go: Date.UnmarshalXML")],
     "all days of years 0000-9999 with any digits, all times, all offsets within 15 hours that are whole minutes, malformed texts of bounded length")
prop("C04", "Dates are printed as the instant they hold and survive a round trip",
     "Every date is printed in the form YYYYMMDDHHMMSS.XXX[offset:name] (offset in hours, with two decimals unless whole; the name omitted if there is none or one that is not made of capital letters), and reading that text back yields the same instant to the millisecond, the same offset and the zone name printed, for every time zone whose offset is a multiple of three minutes. Two dates are equal exactly when they are the same instant.",
     ["inputs"], "every instant, sub-second part and time zone",
     "the tests print five dates in three zones",
     ["types.go"], [("Date.String", "types.go: Date.String"), ("Date.Equal", "types.go: Date.Equal"), ("Date.MarshalXML", "types.go: Date.MarshalXML")],
     "offsets within 15 hours, every day of the years 0 to 9999, every nanosecond")
prop("C05", "Simple element values are read and printed exactly",
     "Booleans are read from exactly Y and N and printed the same way; integers are read and printed as exactly the decimal number; strings keep exactly their text, without surrounding white space; currency symbols are read as three-letter ISO 4217 codes in any case and printed in capitals, with any text that is not three letters refused, and an unset currency or XXX counts as invalid. Values read or printed compare equal exactly when they are the same value.",
     ["inputs"], "every text of such an element",
     "the tests read a few fixed values of each kind",
     ["types.go"], [("Boolean", "types.go: Boolean"), ("Int", "types.go: Int"), ("String", "types.go: String"), ("CurrSymbol", "types.go: CurrSymbol")],
     "texts of bounded length with arbitrary bytes; every 64-bit integer read from its digits")
prop("C06", "Enumerated values are read and printed by their OFX names",
     "Every value of an enumerated element (account types, transaction types, versions, statuses and the rest) is printed as its OFX name and read back from that name, in upper case and with surrounding white space ignored. Any other text is refused with an error, and no invalid value is ever printed as if it were valid.",
     ["inputs"], "every enumeration, every text and every numeric value",
     "the tests check the listed names and one fixed wrong one",
     ["constants.go"], [("enumerations", "constants.go: New*, String, UnmarshalXML, MarshalXML, Valid")],
     "all 41 enumerations, all texts up to the longest name plus 1, and values 0..255 and beyond")
prop("C07", "Every supported version, and no other, can be written and read back",
     "A document is written for each of the eleven supported OFX versions with the header of that version: the colon-separated SGML header up to 1.6, the XML declaration and OFX processing instruction from 2.0 on. A document written is read back with the same version, and a document of any other version is refused instead of being written.",
     ["inputs", "configurations"], "every version value, with either line ending and indentation",
     "the tests write four of the versions",
     ["common.go", "request.go", "response.go"], [("writeHeader", "common.go: writeHeader"), ("Request.Marshal", "request.go: Marshal"), ("Response.Marshal", "response.go: Marshal")],
     "all version values up to 65536, both line endings and indentations")
prop("C08", "Responses are accepted only under a valid OFX header",
     "A response is read only when its header is a well-formed OFX header of a supported version: for SGML the nine fields in their order with header version 100, data type OFXSGML, security NONE or TYPE1, a well-formed encoding and character set, no compression, well-formed file identifiers and a supported version up to 1.6; for XML an OFX processing instruction with header version 200, a supported version from 2.0 on and, where it is given, no security. Any other header yields an error, never a document, and the version reported is the one in the header.",
     ["inputs"], "every header text",
     "the tests read a few valid headers and two or three broken ones",
     ["response.go"], [("readSGMLHeaders", "response.go: readSGMLHeaders"), ("readXMLHeaders", "response.go: readXMLHeaders"), ("guessVersion", "response.go: guessVersion")],
     "each field with arbitrary values of up to 3 (SGML thorough: 4) bytes or one byte off, any 3 or 6 digits as version, fields dropped, swapped, repeated, renamed or added, two arbitrary bytes at any place between them")
prop("C09", "Invalid requests and responses are refused instead of written",
     "A request or response is written only when its signon is valid and every message in it is valid for its version and in the message set it belongs to, wherever in the message set it stands. Otherwise writing fails with an error and yields no document.",
     ["inputs", "configurations"], "every request and response, every message in any position of any message set, every version",
     "the tests cover a handful of invalid requests",
     ["request.go", "response.go", "bank.go", "creditcard.go", "invstmt.go", "profile.go", "signup.go", "seclist.go", "signon.go"],
     [("Request.Marshal", "request.go: Marshal, encodeMessageSet"), ("Response.Marshal", "response.go: Marshal"), ("Valid", "Valid methods of the messages")],
     "one to three messages per message set; signon, identifier, account and version around every limit, each kind of message in each message set")
prop("C10", "A written request holds exactly the request's content",
     "The document written for a request holds the signon and every message of every message set exactly once, in the fixed order of message sets and the given order of messages, each under the element of its message set and each field under its element; a message tells the name of its element and its message set. Text of any kind in a field reads back unchanged and never adds or alters an element, whether the version is SGML or XML; only bytes that XML cannot hold are replaced, by U+FFFD. Two values are not the caller's: the client routing of a profile request is always NONE, and a signon without language is in English (ENG).",
     ["inputs", "configurations"], "every request, every text in every field, every version",
     "the tests compare a few fixed requests with fixed texts",
     ["request.go", "bank.go", "creditcard.go", "invstmt.go", "profile.go", "signup.go", "seclist.go", "signon.go"],
     [("Request.Marshal", "request.go: Marshal, encodeMessageSet"), ("struct tags", "request types")],
     "two arbitrary bytes in one text at a time, and eleven texts of markup with an arbitrary byte; 16 patterns of optional elements and each alone present or absent; combinations of message sets of up to two messages")
prop("C11", "Formatting options change nothing but formatting",
     "With indentation off, a request is written without line breaks or spaces between elements; with carriage returns on, every line break is CR LF and otherwise LF. The document's header, elements and texts are the same for all four combinations of the two options.",
     ["inputs", "configurations"], "every request under every combination of the options",
     "the tests use one or two combinations with fixed requests",
     ["request.go", "common.go"], [("Request.Marshal", "request.go: Marshal"), ("writeHeader", "common.go: writeHeader")],
     "all versions and kinds of messages, with and without optional elements, two messages, symbolic text with special characters in every field")
prop("C12", "Bank and credit card statements keep every element, both ways",
     "Every element of a bank or credit card statement response is stored in the field meant for it and nowhere else, whichever optional elements are present, and transactions and balances keep their order. Writing the response as a document and reading it back yields an equal response.",
     ["inputs", "configurations"], "every combination of optional elements and every value",
     "the tests read a few fixed statements",
     ["bank.go", "creditcard.go", "common.go", "response.go"], [("StatementResponse", "bank.go: StatementResponse"), ("CCStatementResponse", "creditcard.go: CCStatementResponse")],
     "16 patterns of optional elements and each alone present or absent, symbolic contents of one letter or two digits, SGML and XML, lists of up to 2")
prop("C13", "Investment statements keep every element, by type",
     "Every transaction, position and open order of an investment statement is read as the type its element names, in order, with each of its elements in the field meant for it; an unknown type of transaction, position or order is refused, in reading and in writing. Writing the response as a document and reading it back yields an equal response.",
     ["inputs", "configurations"], "every type of transaction, position and order in any order, and every value",
     "the tests read three fixed statements, which hold half of the types",
     ["invstmt.go"], [("InvTranList.UnmarshalXML", "invstmt.go: InvTranList"), ("PositionList.UnmarshalXML", "invstmt.go: PositionList"), ("OOList.UnmarshalXML", "invstmt.go: OOList")],
     "every type and ordered pair of types, 16 patterns of optional elements and each alone present or absent, symbolic contents of one letter or two digits")
prop("C14", "Securities lists keep every security, by type",
     "Every security of a securities list is read as the type its element names, in order, with each of its elements in the field meant for it; an unknown type is refused, in reading and in writing. Writing the list as a document and reading it back yields an equal list.",
     ["inputs", "configurations"], "every type of security in any order, and every value",
     "the tests read two fixed lists",
     ["seclist.go"], [("SecurityList.UnmarshalXML", "seclist.go: SecurityList")],
     "every type and ordered triple of types, 16 patterns of optional elements and each alone present or absent, symbolic contents of one letter or two digits")
prop("C15", "Account lists and profiles keep every element",
     "Every account, message set and signon realm of an account information or profile response is read in order with each of its elements in the field meant for it. The document written for such a response holds its elements and no others, and reading it back yields an equal response; a message set whose name does not end in V1 is refused, and a profile in which a message set has several versions is refused or read with all of them.",
     ["inputs", "configurations"], "every combination of optional elements and every value",
     "the tests read a few fixed responses",
     ["signup.go", "profile.go", "signon.go"], [("AcctInfoResponse", "signup.go: AcctInfoResponse"), ("MessageSetList.UnmarshalXML", "profile.go: MessageSetList")],
     "16 patterns of optional elements and each alone present or absent, symbolic contents of one letter or two digits, lists of up to 2")
prop("C16", "SGML documents read alike with or without closing tags and white space",
     "In an SGML document, omitting the closing tag of an element that holds a value, or adding or removing white space and line breaks between elements, does not change what is read. This holds for every value element of every supported kind of message.",
     ["inputs", "programs"], "every value element and every choice of closed or unclosed elements and of white space",
     "the tests read a few fixed SGML documents",
     ["response.go", "leaf_elements.go"], [("ofxLeafElements", "leaf_elements.go"), ("DecodeResponse", "response.go: DecodeResponse")],
     "each value element of each supported message alone or together closed or not, symbolic white space between elements")
prop("C17", "Damaged responses fail instead of losing content",
     "A response cut short at any point, or whose transport fails at any point, yields an error and never a document that merely lacks the rest; so does one with a closing element that matches no open one. The way the bytes arrive in pieces does not change what is read.",
     ["inputs", "fault_sequences", "crash_points"], "every cut, read error, stray closing element and fragmentation of a response",
     "the tests read whole documents only",
     ["response.go"], [("DecodeResponse", "response.go: DecodeResponse"), ("decodeMessageSet", "response.go: decodeMessageSet")],
     "documents of one message of every kind in three forms, every cut and fault position (in quick investment statements and securities at the ends of elements), piece sizes of 1 to 16 and around powers of two; closing elements of any three letters at 12 places")
prop("C18", "Reading a response never crashes or hangs",
     "Reading any sequence of bytes as a response ends, with either a document or an error, without a crash; and whatever was read can be judged and written again without a crash.",
     ["inputs"], "every sequence of bytes",
     "the tests read well-formed or nearly well-formed documents",
     ["response.go", "types.go"], [("ParseResponse", "response.go: ParseResponse, DecodeResponse")],
     "all documents of up to 3 bytes (thorough 4), 3 arbitrary bytes after ten beginnings, documents of every kind with an arbitrary byte (thorough two) at any place, any text arbitrary, any element dropped, doubled or broken; documents of up to 2 KB")
prop("C19", "Parsing reports every violation and still returns what was read",
     "Parsing a well-formed response returns the whole document together with one error that names, in order, a violation of the signon and of every invalid message in it, and returns no error exactly when all of them are valid. Decoding alone returns the same document without judging it. A document that cannot be read yields an error and no response.",
     ["inputs"], "every combination of violated rules in a response",
     "the tests cover one or two violated rules",
     ["response.go", "util.go"], [("ParseResponse", "response.go: ParseResponse"), ("Response.Valid", "response.go: Valid"), ("ErrInvalid", "util.go")],
     "every combination of invalid messages among one of each kind, three messages of one kind with six kinds of flaws, four kinds of signon")
prop("C29", "Messages are kept in their own message sets, in order",
     "Every message of a response is read into the list of its own message set, which it tells along with the name of its element, in the order of the document, whichever message sets follow each other and however often one occurs, and no message takes anything from another. A message in a set it does not belong to, an unknown message set or message, text between messages, and a missing or second signon are refused. A response is written with its message sets in their fixed order and each message once, and reads back equal.",
     ["inputs", "histories"], "every sequence of message sets and messages",
     "the tests read a few fixed documents with one or two messages",
     ["response.go", "common.go"], [("DecodeResponse", "response.go: DecodeResponse, decodeMessageSet, responseTypes"), ("Response.Marshal", "response.go: Marshal")],
     "two message sets of any kinds with up to two messages each, or all kinds in 14 orders with one repeated; every message in every set; one unknown element or text at each place")
prop("C20", "Signon rules",
     "A signon request is valid exactly when its user identifier has 1 to 32 characters, exactly one of password and user key is given and within 32 and 64 characters, the language is empty (meaning ENG) or of 3 characters, and the application identifier and version have 1 to 5 and 1 to 4 characters. A signon response is valid exactly when its language has 3 characters and its status is valid.",
     ["inputs"], "every combination of lengths and contents of the fields",
     "the tests use a few fixed values",
     ["signon.go"], [("SignonRequest.Valid", "signon.go"), ("SignonResponse.Valid", "signon.go")],
     "all lengths up to beyond each limit, arbitrary bytes")
prop("C21", "Status codes and severities",
     "A status is valid exactly when its severity is INFO, WARN or ERROR and its code is one of the codes of the OFX specification with that severity. The meaning of a known code, and no other, can be looked up.",
     ["inputs"], "every code and severity",
     "the tests check three statuses",
     ["common.go"], [("Status.Valid", "common.go: Status"), ("statusMeanings", "common.go")],
     "every 64-bit code, severities of up to 5 bytes")
prop("C22", "Statement rules",
     "A bank statement response, and each transaction, pending transaction, payee, balance and currency in it, is valid exactly when the fields required by the OFX specification are present, mutually exclusive fields are not both present, fields have their permitted values, and nothing is used that the version does not have.",
     ["inputs", "configurations"], "every combination of present, absent and ill-valued fields, every version",
     "the tests cover a few fixed combinations",
     ["bank.go", "common.go"], [("Valid", "bank.go, common.go: Valid methods")],
     "every field symbolically absent, valid or invalid")
prop("C23", "Random identifiers are valid, random and distinct",
     "A fresh transaction identifier has 36 characters, hexadecimal digits in groups of 8, 4, 4, 4 and 12 joined by hyphens, and spells 128 bits taken unchanged from the system's random source. An identifier is valid exactly when it has 1 to 36 characters, and of the recommended form exactly when it has 36 with hyphens at those places.",
     ["inputs"], "every output of the random source",
     "the tests generate a few thousand identifiers and compare them",
     ["types.go"], [("RandomUID", "types.go: RandomUID")],
     "all 128 random bits symbolic, two identifiers compared")
prop("C24", "Requests travel over https only",
     "A client sends a request only to an https URL, and refuses any other URL with an error before any connection is made. No redirect makes it repeat a request to anything but https. The server's certificate is always verified, for the host of the URL.",
     ["inputs", "histories"], "every URL, every client, every sequence of redirects",
     "the tests never use the network",
     ["client.go", "basic_client.go", "vanguard_client.go", "discovercard_client.go"], [("RawRequest", "RawRequest of each client"), ("httpsOnly", "client.go")],
     "URLs of arbitrary bytes around the scheme, redirect chains of up to three hops with symbolic locations")
prop("C25", "The standard client posts exactly the request and reports failures",
     "The standard client sends one POST with content type application/x-ofx, the configured user agent and exactly the given bytes to exactly the given URL. A response with status 200 is returned unchanged; any other status, and any transport failure, is returned as an error.",
     ["inputs", "fault_sequences"], "every body, URL, user agent and status",
     "the tests never use the network",
     ["basic_client.go", "client.go"], [("BasicClient.RawRequest", "basic_client.go"), ("clientRequest", "client.go")],
     "symbolic body, path, user agent and status of bounded size")
prop("C26", "The Vanguard client answers an empty response with its cookies, once",
     "When the answer to a request is successful, sets cookies and has a content length of 0, the Vanguard client sends the same request again exactly once with those cookies and the configured user agent, and returns the second answer; the request's URL stays its own even if the first answer came from a place it was redirected to. A request whose answer has content of known length, or fails on the way, is never repeated, and such an answer is returned as it is.",
     ["inputs", "histories"], "every sequence of answers, cookies and statuses",
     "the tests never use the network",
     ["vanguard_client.go"], [("VanguardClient.RequestNoParse", "vanguard_client.go")],
     "up to two cookies with symbolic values, symbolic statuses and lengths")
prop("C27", "The Discover client frames its request exactly",
     "The Discover client connects to the URL's host and port, 443 where none is given, and sends exactly a POST of the URL's path and query with the headers Content-Type, Host, Content-Length and Connection in that order, a blank line and the request's bytes, with the right length. The response is returned as received when its status is 200 and as an error otherwise.",
     ["inputs", "fault_sequences"], "every URL, body, status and response",
     "the tests never use the network",
     ["discovercard_client.go"], [("discoverCardHTTPPost", "discovercard_client.go")],
     "symbolic path, query, port, body and status of bounded size")
prop("C28", "Client settings reach the request",
     "Every request a client sends carries the client's OFX version, application identifier and application version, or the documented defaults where they are not set, and the current time, and is formatted by the client's indentation and line break settings. Everything else in the request is sent as the caller set it, and the client for a URL is the special one exactly for the URLs of the institutions that have one.",
     ["inputs", "configurations"], "every client configuration, kind of client and URL",
     "the tests look at a few configurations without sending anything",
     ["client.go", "basic_client.go", "request.go"], [("SetClientFields", "request.go"), ("GetClient", "client.go")],
     "all versions, symbolic identifiers of bounded length, every option")
prop("C30", "Responses and connections are always released",
     "After a request that parses its response, or that fails without handing a response to the caller, nothing stays open: the body of every response received, also of one replaced by a second attempt, and every connection made by hand is closed. A response handed to the caller is left open, and closing it releases everything: requests do not each leave an idle connection of their own open.",
     ["inputs", "fault_sequences"], "every client, status, content and failure on the way",
     "the tests never use the network",
     ["client.go", "vanguard_client.go", "discovercard_client.go"], [("clientRequest", "client.go"), ("RequestNoParse", "vanguard_client.go"), ("discoverCardHTTPPost", "discovercard_client.go")],
     "symbolic statuses, response contents, failing reads and writes at every place")
prop("C31", "The command-line client prints every transaction and balance received",
     "For every valid statement received, the transaction listing commands print the statement's balance (the ledger balance; for investments the available cash, if there is any) and every transaction, in order, with its amounts, date, name and memo or security, and currency (its own, else the statement's), and end with success. When the signon is refused or there is no response, they fail and list nothing. They never crash, whatever optional parts the statement lacks or whatever other messages come.",
     ["inputs", "configurations"], "every statement, with any optional parts missing, and every other answer",
     "the command-line client has no tests",
     ["cmd/ofx/banktransactions.go", "cmd/ofx/cctransactions.go", "cmd/ofx/invtransactions.go"], [("bankTransactions", "cmd/ofx/banktransactions.go"), ("ccTransactions", "cmd/ofx/cctransactions.go"), ("invTransactions", "cmd/ofx/invtransactions.go")],
     "statements of up to two transactions of each of the 20 kinds, with optional parts present by patterns and one by one, symbolic texts of 2 characters, symbolic digits; every status code; listings compared without blanks")
prop("C32", "The command-line client saves exactly what it received",
     "The download commands send one request and write exactly the bytes of the response to the named file (response.ofx unless given), replacing what was there; when that fails in any part (no or a failing response, the file cannot be created, written or closed), they end with an exit code which says so. With the dry-run option every command prints the request it would send instead, sends nothing and writes no file.",
     ["inputs", "fault_sequences"], "every response, status, fault and option",
     "the command-line client has no tests",
     ["cmd/ofx/bankdownload.go", "cmd/ofx/ccdownload.go", "cmd/ofx/invdownload.go", "cmd/ofx/profiledownload.go"], [("download", "cmd/ofx/bankdownload.go: bankDownload and the others"), ("printRequest", "cmd/ofx/util.go")],
     "symbolic response bytes (up to 3, alone or after 40000) and status, symbolic file names of 1 and 3 characters, each fault at each point, every command with each kind of client")
prop("C33", "The command-line options reach the request",
     "Each command sends to the given URL a request with the given credentials, institution, client identifier, application, version, account and formatting, for the kind of message the command names, and leaves the rest at the documented defaults. The password is asked for when it is not given. A command ends with failure, sending and writing nothing, when the URL, the user name (except for profiles) or, for bank commands, the bank or account number is missing, when the version, account type, URL or a flag is invalid, when the password cannot be read, or when the command or an option does not exist.",
     ["inputs", "configurations"], "every combination of options and their values",
     "the command-line client has no tests",
     ["cmd/ofx/main.go", "cmd/ofx/util.go", "cmd/ofx/command.go"], [("flags", "cmd/ofx/command.go: checkServerFlags and each command's flags"), ("newRequest", "cmd/ofx/util.go")],
     "all options given, each one missing, or only the required ones, with symbolic values of 2 characters, each value with one arbitrary printable character, every version and account type, all commands")
prop("C34", "The command-line client lists every account received",
     "For every account list received, the account listing command prints every account, in order, with its kind and identification: bank, account number and type of a bank account, the number of a credit card, broker and account number of an investment account, name and description of any other. It ends with success then, and with failure when the signon is refused or there is no response.",
     ["inputs", "configurations"], "every account list, with any optional parts missing",
     "the command-line client has no tests",
     ["cmd/ofx/get_accounts.go"], [("getAccounts", "cmd/ofx/get_accounts.go")],
     "up to three accounts of any kinds with symbolic identifiers of 2 characters, with all optional parts, none, or a pattern of them; listings compared without blanks")
prop("C35", "Operations of several goroutines do not affect each other",
     "Goroutines which work at the same time on values of their own - reading, judging and writing responses, writing requests, making and printing dates, amounts, identifiers and other values - or which send requests of their own through one client, or which judge and write one response nobody changes, each get what they would get alone: no memory is written by one and accessed by another without synchronisation, answers to requests are not mixed up, and what an operation returned (a response, a document, the body of an answer) stays as it is whatever other operations do later.",
     ["schedules", "inputs", "histories"], "every schedule of two operations, on every content",
     "the tests run one operation at a time and look at each result before the next operation",
     ["request.go", "response.go", "types.go", "basic_client.go", "discovercard_client.go", "vanguard_client.go"],
     [("Response.Marshal", "response.go"), ("Request.Marshal", "request.go"), ("DecodeResponse", "response.go"), ("clientRequest", "client.go")],
     "any two of thirteen operations with symbolic texts, three ways to use one response or one client at a time; schedules by recording all accesses to shared memory with the locks held and the order given by atomics (no race: every schedule is equivalent to one of the serial ones)")
prop("C36", "Detecting settings finds the first combination the server accepts",
     "The detection command tries its combinations of application, version and formatting in a fixed order, each with the given login and then the anonymous one, with the given waiting time between attempts, and reports exactly the first one the server answers with a response which can be read. It sends no further request after a success, and ends with failure when none of the combinations succeeds.",
     ["inputs", "histories"], "every sequence of server answers",
     "the command-line client has no tests",
     ["cmd/ofx/detect_settings.go"], [("detectSettings", "cmd/ofx/detect_settings.go"), ("tryProfile", "cmd/ofx/detect_settings.go")],
     "success at any of the first 46 requests, around each change of application, at the end (of 1188) or never, after wrong answers of five kinds; symbolic login and waiting time")

prop("C37", "A malformed value anywhere in a response is refused",
     "A response is refused, and nothing of it is returned, when any element of it that has to hold a number, an amount, a date, a truth value, a currency or an enumerated value holds anything else or nothing, whatever message, list and aggregate the element stands in, and whether the response is parsed or only decoded; so is one with text among the members of its list of transactions, positions, orders, securities or message sets.",
     ["inputs"], "every element with a value of a given form, in every place, and every malformed text",
     "the tests read malformed values one at a time, outside any response",
     ["response.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "signup.go", "profile.go", "signon.go", "types.go"],
     [("UnmarshalXML", "types.go and constants.go: UnmarshalXML"), ("InvTranList.UnmarshalXML", "invstmt.go: the lists' UnmarshalXML"), ("decodeMessageSet", "response.go: decodeMessageSet")],
     "each such element of every message and of the signon, first and last of its kind in lists of two, and in each type of transaction, position, order, security and message set: empty, any two letters, or a value with any letter before or after it; text of two letters before, among or after the members of each list of several kinds; XML, and SGML with and without closing elements")
prop("C38", "Unknown elements and the order of elements change nothing",
     "An element that no supported version of OFX knows is skipped with all it holds, even under known names, wherever it stands in an aggregate, and everything else is read as without it; in SGML it needs no closing element at the end of an aggregate. The elements of an aggregate are read alike in any order, as long as the members of a list keep theirs.",
     ["inputs", "programs"], "every aggregate, every place in it, every unknown element and every order",
     "the tests read two documents with unknown elements, all at the end of an aggregate",
     ["response.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "signup.go", "profile.go", "signon.go"],
     [("DecodeResponse", "response.go: DecodeResponse"), ("struct tags", "response types")],
     "all aggregates but the lists of several kinds (where unknown elements are refused: C13, C14, C29), each with an unknown element first, in the middle or last, of any name of two letters after a fixed start and with any two characters, empty, or holding the names around it; five reorderings; XML, and SGML with and without closing elements")
prop("C39", "Text in a response is read and written as what it denotes",
     "Text of any kind in any text element of a response is read as what it denotes, with entities, character references and marked sections replaced by the characters they stand for (in XML, comments by nothing; in SGML, an ampersand that begins no reference stands for itself). Text of any kind in a field of a response is written so that it reads back unchanged, but for surrounding white space and bytes that XML cannot hold, and never adds or alters an element.",
     ["inputs", "configurations"], "every text in every text element",
     "the tests read one or two texts with an entity",
     ["response.go", "types.go"], [("DecodeResponse", "response.go: DecodeResponse"), ("Response.Marshal", "response.go: Marshal"), ("String.UnmarshalXML", "types.go: String")],
     "every text element of every message and of the signon, one at a time; ten forms in XML, ten in SGML and three of marked sections around or between any letters; written, five forms in each and any byte in every third (thorough: any two bytes in each)")
prop("C40", "Judging and writing change nothing and leave nothing behind",
     "Judging or writing a response or request, valid or not, under its own or another version, leaves it as it was, so that doing so again gives the same verdict and the same document. A document that was written, read and written again is the same. An operation which fails leaves nothing behind that affects a later one.",
     ["inputs", "histories"], "every response and request, every sequence of operations",
     "the tests judge or write each value once",
     ["response.go", "request.go", "bank.go", "creditcard.go", "invstmt.go", "seclist.go", "signup.go", "profile.go", "signon.go"],
     [("Response.Marshal", "response.go: Marshal"), ("Request.Marshal", "request.go: Marshal"), ("Valid", "Valid methods of the messages")],
     "every kind of message, 6 or 8 patterns of optional elements, valid or not, any two of four operations with the first repeated; a failure of six kinds before any of thirteen operations; symbolic texts")
prop("C41", "A client's requests do not depend on earlier ones",
     "How a request is sent and what comes back of it depends on the request, the client's settings at that time and the answers to it alone, not on requests sent before, through the same or another client, whatever came of them: no cookie, setting, content or failure of an earlier request is carried over (but by an HTTP client of the caller's own).",
     ["inputs", "histories"], "every client, every earlier request and every answer to it",
     "the tests send no request at all",
     ["client.go", "basic_client.go", "vanguard_client.go", "discovercard_client.go", "request.go"],
     [("clientRequestNoParse", "client.go: clientRequestNoParse"), ("RawRequest", "RawRequest of the clients"), ("SetClientFields", "request.go: SetClientFields")],
     "one earlier request through the same or any other client, in any of three ways, with any of six answers, of the same or another kind, under the same or other settings; symbolic settings and contents; compared with the first request of a new client")

prop("C42", "Passwords go nowhere but into the signon of a request",
     "The password or user key of a request is sent once, in the signon of the request's own document, and nowhere else: it is no part of a URL, a header, an error, anything printed (but for a request printed in a dry run) or any file, whatever the request, its validity, the answers to it, and the command and its options, valid or not.",
     ["inputs", "fault_sequences"], "every request, setting, option and outcome",
     "the tests send no request and look at no error's text",
     ["client.go", "basic_client.go", "vanguard_client.go", "discovercard_client.go", "request.go", "signon.go", "cmd/ofx"],
     [("clientRequest", "client.go: clientRequest"), ("SignonRequest.Valid", "signon.go: SignonRequest.Valid"), ("newRequest", "cmd/ofx/util.go: newRequest"), ("main", "cmd/ofx/main.go: main")],
     "each client, parsed or not, each command; nine answers, four bad URLs, six kinds of invalid requests, seven of invalid options; a secret of eight letters, one of them symbolic")


def have():
    ids = set()
    d = os.path.join(ROOT, "harness", "p")
    for fn in os.listdir(d):
        if fn.endswith(".go"):
            ids |= set(re.findall(r"^func (C\d+)_\w+\(\) \{", open(os.path.join(d, fn)).read(), re.M))
    return ids


def main():
    ids = have()
    lines, checks = [], []
    for p in P:
        if p["id"] not in ids:
            continue
        assert len(p["title"]) <= 80, p["title"]
        lines.append(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["tests"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }))
        checks.append({
            "property": p["id"],
            "quick_cmd": "python3 check.py %s quick" % p["id"],
            "thorough_cmd": "python3 check.py %s thorough" % p["id"],
            "technique": "symbolic execution of the Go SSA form of the real code, branches and assertions decided by z3",
            "level": "model_checking",
            "level_note": "Holds for all values within the bounds (%s), on every path of the real code and of the libraries below it; counterexamples are replayed against the real build. Trusts the engine's models of library leaves (listed in DESIGN.md), which replayed path samples validate." % p["note"],
        })
    open(os.path.join(ROOT, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
    json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": [],
               "notes": "engine/: symbolic executor for Go SSA (solver: z3). harness/p: harnesses, one or more per property. Nothing is added to /repo; the harnesses are built through overlays."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
