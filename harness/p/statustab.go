package p

// statusTable holds the status codes of the OFX specification (2.2, 3.1.1 and
// the lists of the message sets): code, severity, meaning, and the start of the
// conditions.
var statusTable = []struct {
	code                 int
	sev, mean, condition string
}{
	{0, "INFO", "Success", "The server successfully p"},
	{1, "INFO", "Client is up-to-date", "Based on the client times"},
	{2000, "ERROR", "General error", "Error other than those sp"},
	{2001, "ERROR", "Invalid account", ""},
	{2002, "ERROR", "General account error", "Account error not specifi"},
	{2003, "ERROR", "Account not found", "The specified account num"},
	{2004, "ERROR", "Account closed", "The specified account num"},
	{2005, "ERROR", "Account not authorized", "The user is not authorize"},
	{2006, "ERROR", "Source account not found", "The specified account num"},
	{2007, "ERROR", "Source account closed", "The specified account num"},
	{2008, "ERROR", "Source account not authorized", "The user is not authorize"},
	{2009, "ERROR", "Destination account not found", "The specified account num"},
	{2010, "ERROR", "Destination account closed", "The specified account num"},
	{2011, "ERROR", "Destination account not authorized", "The user is not authorize"},
	{2012, "ERROR", "Invalid amount", "The specified amount is n"},
	{2014, "ERROR", "Date too soon", "The server cannot process"},
	{2015, "ERROR", "Date too far in future", "The server cannot accept "},
	{2016, "ERROR", "Transaction already committed", "Transaction has entered t"},
	{2017, "ERROR", "Already canceled", "The transaction cannot be"},
	{2018, "ERROR", "Unknown server ID", "The specified server ID d"},
	{2019, "ERROR", "Duplicate request", "A request with this <TRNU"},
	{2020, "ERROR", "Invalid date", "The specified datetime st"},
	{2021, "ERROR", "Unsupported version", "The server does not suppo"},
	{2022, "ERROR", "Invalid TAN", "The server was unable to "},
	{2023, "ERROR", "Unknown FITID", "The specified FITID/BILLI"},
	{2025, "ERROR", "Branch ID missing", "A <BRANCHID> value must b"},
	{2026, "ERROR", "Bank name doesn’t match bank ID", "The value of <BANKNAME> i"},
	{2027, "ERROR", "Invalid date range", "Response for non-overlapp"},
	{2028, "WARN", "Requested element unknown", "One or more elements of t"},
	{3000, "ERROR", "MFA Challenge authentication required", "User credentials are corr"},
	{3001, "ERROR", "MFA Challenge information is invalid", "User or client informatio"},
	{6500, "ERROR", "<REJECTIFMISSING>Y invalid without <TOKEN>", "This error code may appea"},
	{6501, "WARN", "Embedded transactions in request failed to process: Out of date", "<REJECTIFMISSING>Y and em"},
	{6502, "ERROR", "Unable to process embedded transaction due to out-of-date <TOKEN>", "Used in response transact"},
	{10000, "INFO", "Stop check in process", "Stop check is already in "},
	{10500, "ERROR", "Too many checks to process", "The stop-payment request "},
	{10501, "ERROR", "Invalid payee", "Payee error not specified"},
	{10502, "ERROR", "Invalid payee address", "Some portion of the payee"},
	{10503, "ERROR", "Invalid payee account number", "The account number <PAYAC"},
	{10504, "ERROR", "Insufficient funds", "The server cannot process"},
	{10505, "ERROR", "Cannot modify element", "The server does not allow"},
	{10506, "ERROR", "Cannot modify source account", "Reserved for future use."},
	{10507, "ERROR", "Cannot modify destination account", "Reserved for future use."},
	{10508, "ERROR", "Invalid frequency", "The specified frequency <"},
	{10509, "ERROR", "Model already canceled", "The server has already ca"},
	{10510, "ERROR", "Invalid payee ID", "The specified payee ID do"},
	{10511, "ERROR", "Invalid payee city", "The specified city is inc"},
	{10512, "ERROR", "Invalid payee state", "The specified state is in"},
	{10513, "ERROR", "Invalid payee postal code", "The specified postal code"},
	{10514, "ERROR", "Transaction already processed", "Transaction has already b"},
	{10515, "ERROR", "Payee not modifiable by client", "The server does not allow"},
	{10516, "ERROR", "Wire beneficiary invalid", "The specified wire benefi"},
	{10517, "ERROR", "Invalid payee name", "The server does not recog"},
	{10518, "ERROR", "Unknown model ID", "The specified model ID do"},
	{10519, "ERROR", "Invalid payee list ID", "The specified payee list "},
	{10600, "ERROR", "Table type not found", "The specified table type "},
	{12250, "WARN", "Investment transaction download not supported", "The server does not suppo"},
	{12251, "WARN", "Investment position download not supported", "The server does not suppo"},
	{12252, "WARN", "Investment positions for specified date not available", "The server does not suppo"},
	{12253, "WARN", "Investment open order download not supported", "The server does not suppo"},
	{12254, "WARN", "Investment balances download not supported", "The server does not suppo"},
	{12255, "ERROR", "401(k) not available for this account", "401(k) information reques"},
	{12500, "ERROR", "One or more securities not found", "The server could not find"},
	{13000, "INFO", "User ID & password will be sent out-of-band", "The server will send the "},
	{13500, "ERROR", "Unable to enroll user", "The server could not enro"},
	{13501, "ERROR", "User already enrolled", "The server has already en"},
	{13502, "ERROR", "Invalid service", "The server does not suppo"},
	{13503, "ERROR", "Cannot change user information", "The server does not suppo"},
	{13504, "ERROR", "<FI> Missing or Invalid in <SONRQ>", "The FI requires the clien"},
	{14500, "ERROR", "1099 forms not available", "1099 forms are not yet av"},
	{14501, "ERROR", "1099 forms not available for user ID", "This user does not have a"},
	{14600, "ERROR", "W2 forms not available", "W2 forms are not yet avai"},
	{14601, "ERROR", "W2 forms not available for user ID", "The user does not have an"},
	{14700, "ERROR", "1098 forms not available", "1098 forms are not yet av"},
	{14701, "ERROR", "1098 forms not available for user ID", "The user does not have an"},
	{15000, "INFO", "Must change USERPASS", "The user must change his "},
	{15500, "ERROR", "Signon invalid", "The user cannot signon be"},
	{15501, "ERROR", "Customer account already in use", "The server allows only on"},
	{15502, "ERROR", "USERPASS lockout", "The server has received t"},
	{15503, "ERROR", "Could not change USERPASS", "The server does not suppo"},
	{15504, "ERROR", "Could not provide random data", "The server could not gene"},
	{15505, "ERROR", "Country system not supported", "The server does not suppo"},
	{15506, "ERROR", "Empty signon not supported", "The server does not suppo"},
	{15507, "ERROR", "Signon invalid without supporting pin change request", "The OFX block associated "},
	{15508, "ERROR", "Transaction not authorized. ", "Current user is not autho"},
	{15510, "ERROR", "CLIENTUID error", "The CLIENTUID sent by the"},
	{15511, "ERROR", "MFA error", "User should contact finan"},
	{15512, "ERROR", "AUTHTOKEN required", "User needs to contact fin"},
	{15513, "ERROR", "AUTHTOKEN invalid", "The AUTHTOKEN sent by the"},
	{16500, "ERROR", "HTML not allowed", "The server does not accep"},
	{16501, "ERROR", "Unknown mail To:", "The server was unable to "},
	{16502, "ERROR", "Invalid URL", "The server could not pars"},
	{16503, "ERROR", "Unable to get URL", "The server was unable to "},
}
