package p

// schemaText describes the messages of the OFX specification this library
// supports: for each aggregate its Go fields with their kind, the path of their
// element, and flags (? optional, * absent when nil, [] repeated). Kinds: a
// simple value, =enumeration, another aggregate, or ~list of one of several
// aggregates told apart by their element.
const schemaText = `
SignonRequest
 DtClient date DTCLIENT
 UserID string USERID
 UserPass string USERPASS ?
 UserKey string USERKEY ?
 GenUserKey boolean GENUSERKEY ?
 Language string LANGUAGE
 Org string FI>ORG
 Fid string FI>FID
 AppID string APPID
 AppVer string APPVER
 ClientUID uid CLIENTUID ?
AcctInfoRequest
 TrnUID uid TRNUID
 CltCookie string CLTCOOKIE ?
 TAN string TAN ?
 DtAcctUp date ACCTINFORQ>DTACCTUP
BankAcct
 BankID string BANKID
 BranchID string BRANCHID ?
 AcctID string ACCTID
 AcctType =acctType ACCTTYPE
 AcctKey string ACCTKEY ?
StatementRequest
 TrnUID uid TRNUID
 CltCookie string CLTCOOKIE ?
 TAN string TAN ?
 BankAcctFrom BankAcct STMTRQ>BANKACCTFROM
 DtStart date STMTRQ>INCTRAN>DTSTART ?*
 DtEnd date STMTRQ>INCTRAN>DTEND ?*
 Include boolean STMTRQ>INCTRAN>INCLUDE
 IncludePending boolean STMTRQ>INCLUDEPENDING ?
 IncTranImg boolean STMTRQ>INCTRANIMG ?
CCAcct
 AcctID string ACCTID
 AcctKey string ACCTKEY ?
CCStatementRequest
 TrnUID uid TRNUID
 CltCookie string CLTCOOKIE ?
 TAN string TAN ?
 CCAcctFrom CCAcct CCSTMTRQ>CCACCTFROM
 DtStart date CCSTMTRQ>INCTRAN>DTSTART ?*
 DtEnd date CCSTMTRQ>INCTRAN>DTEND ?*
 Include boolean CCSTMTRQ>INCTRAN>INCLUDE
 IncludePending boolean CCSTMTRQ>INCLUDEPENDING ?
 IncTranImg boolean CCSTMTRQ>INCTRANIMG ?
InvAcct
 BrokerID string BROKERID
 AcctID string ACCTID
InvStatementRequest
 TrnUID uid TRNUID
 CltCookie string CLTCOOKIE ?
 TAN string TAN ?
 InvAcctFrom InvAcct INVSTMTRQ>INVACCTFROM
 DtStart date INVSTMTRQ>INCTRAN>DTSTART ?*
 DtEnd date INVSTMTRQ>INCTRAN>DTEND ?*
 Include boolean INVSTMTRQ>INCTRAN>INCLUDE
 IncludeOO boolean INVSTMTRQ>INCOO
 PosDtAsOf date INVSTMTRQ>INCPOS>DTASOF ?*
 IncludePos boolean INVSTMTRQ>INCPOS>INCLUDE
 IncludeBalance boolean INVSTMTRQ>INCBAL
 Include401K boolean INVSTMTRQ>INC401K ?
 Include401KBal boolean INVSTMTRQ>INC401KBAL ?
 IncludeTranImage boolean INVSTMTRQ>INCTRANIMAGE ?
SecurityID
 UniqueID string UNIQUEID
 UniqueIDType string UNIQUEIDTYPE
SecurityRequest
 SecID SecurityID SECID ?*
 Ticker string TICKER ?
 FiID string FIID ?
SecListRequest
 TrnUID uid TRNUID
 CltCookie string CLTCOOKIE ?
 TAN string TAN ?
 Securities SecurityRequest SECLISTRQ>SECRQ ?[]
ProfileRequest
 TrnUID uid TRNUID
 CltCookie string CLTCOOKIE ?
 TAN string TAN ?
 ClientRouting string PROFRQ>CLIENTROUTING
 DtProfUp date PROFRQ>DTPROFUP
Status
 Code int CODE
 Severity string SEVERITY
 Message string MESSAGE ?
SignonResponse
 Status Status STATUS
 DtServer date DTSERVER
 UserKey string USERKEY ?
 TsKeyExpire date TSKEYEXPIRE ?*
 Language string LANGUAGE
 DtProfUp date DTPROFUP ?*
 DtAcctUp date DTACCTUP ?*
 Org string FI>ORG
 Fid string FI>FID
 SessCookie string SESSCOOKIE ?
 AccessKey string ACCESSKEY ?
HolderInfo
 FirstName string FIRSTNAME
 MiddleName string MIDDLENAME ?
 LastName string LASTNAME
 Addr1 string ADDR1
 Addr2 string ADDR2 ?
 Addr3 string ADDR3 ?
 City string CITY
 State string STATE
 PostalCode string POSTALCODE
 Country string COUNTRY ?
 DayPhone string DAYPHONE ?
 EvePhone string EVEPHONE ?
 Email string EMAIL ?
 HolderType =holderType HOLDERTYPE ?
BankAcctInfo
 BankAcctFrom BankAcct BANKACCTFROM
 SupTxDl boolean SUPTXDL
 XferSrc boolean XFERSRC
 XferDest boolean XFERDEST
 MaturityDate date MATURITYDATE ?
 MaturityAmt amount MATURITYAMOUNT ?
 MinBalReq amount MINBALREQ ?
 AcctClassification =acctClassification ACCTCLASSIFICATION ?
 OverdraftLimit amount OVERDRAFTLIMIT ?
 SvcStatus =svcStatus SVCSTATUS
CCAcctInfo
 CCAcctFrom CCAcct CCACCTFROM
 SupTxDl boolean SUPTXDL
 XferSrc boolean XFERSRC
 XferDest boolean XFERDEST
 AcctClassification =acctClassification ACCTCLASSIFICATION ?
 SvcStatus =svcStatus SVCSTATUS
InvAcctInfo
 InvAcctFrom InvAcct INVACCTFROM
 UsProductType =usProductType USPRODUCTTYPE
 Checking boolean CHECKING
 SvcStatus =svcStatus SVCSTATUS
 InvAcctType =invAcctType INVACCTTYPE ?
 OptionLevel string OPTIONLEVEL ?
AcctInfo
 Name string NAME ?
 Desc string DESC ?
 Phone string PHONE ?
 PrimaryHolder HolderInfo HOLDERINFO>PRIMARYHOLDER ?
 SecondaryHolder HolderInfo HOLDERINFO>SECONDARYHOLDER ?
 BankAcctInfo BankAcctInfo BANKACCTINFO ?*
 CCAcctInfo CCAcctInfo CCACCTINFO ?*
 InvAcctInfo InvAcctInfo INVACCTINFO ?*
AcctInfoResponse
 TrnUID uid TRNUID
 Status Status STATUS
 CltCookie string CLTCOOKIE ?
 DtAcctUp date ACCTINFORS>DTACCTUP
 AcctInfo AcctInfo ACCTINFORS>ACCTINFO ?[]
Payee
 Name string NAME
 Addr1 string ADDR1
 Addr2 string ADDR2 ?
 Addr3 string ADDR3 ?
 City string CITY
 State string STATE
 PostalCode string POSTALCODE
 Country string COUNTRY ?
 Phone string PHONE
ImageData
 ImageType =imageType IMAGETYPE
 ImageRef string IMAGEREF
 ImageRefType =imageRefType IMAGEREFTYPE
 ImageDelay int IMAGEDELAY ?
 DtImageAvail date DTIMAGEAVAIL ?*
 ImageTTL int IMAGETTL ?
 CheckSup =checkSup CHECKSUP ?
Currency
 CurRate amount CURRATE
 CurSym currsymbol CURSYM
Transaction
 TrnType =trnType TRNTYPE
 DtPosted date DTPOSTED
 DtUser date DTUSER ?*
 DtAvail date DTAVAIL ?*
 TrnAmt amount TRNAMT
 FiTID string FITID
 CorrectFiTID string CORRECTFITID ?
 CorrectAction =correctAction CORRECTACTION ?
 SrvrTID string SRVRTID ?
 CheckNum string CHECKNUM ?
 RefNum string REFNUM ?
 SIC int SIC ?
 PayeeID string PAYEEID ?
 Name string NAME ?
 Payee Payee PAYEE ?*
 ExtdName string EXTDNAME ?
 BankAcctTo BankAcct BANKACCTTO ?*
 CCAcctTo CCAcct CCACCTTO ?*
 Memo string MEMO ?
 ImageData ImageData IMAGEDATA ?[]
 Currency Currency CURRENCY ?*
 OrigCurrency Currency ORIGCURRENCY ?*
 Inv401kSource =inv401kSource INV401KSOURCE ?
TransactionList
 DtStart date DTSTART
 DtEnd date DTEND
 Transactions Transaction STMTTRN ?[]
PendingTransaction
 TrnType =trnType TRNTYPE
 DtTran date DTTRAN
 DtExpire date DTEXPIRE ?*
 TrnAmt amount TRNAMT
 RefNum string REFNUM ?
 Name string NAME ?
 ExtdName string EXTDNAME ?
 Memo string MEMO ?
 ImageData ImageData IMAGEDATA ?[]
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
PendingTransactionList
 DtAsOf date DTASOF
 Transactions PendingTransaction STMTTRNP ?[]
Balance
 Name string NAME
 Desc string DESC
 BalType =balType BALTYPE
 Value amount VALUE
 DtAsOf date DTASOF ?*
 Currency Currency CURRENCY ?*
StatementResponse
 TrnUID uid TRNUID
 Status Status STATUS
 CltCookie string CLTCOOKIE ?
 CurDef currsymbol STMTRS>CURDEF
 BankAcctFrom BankAcct STMTRS>BANKACCTFROM
 BankTranList TransactionList STMTRS>BANKTRANLIST ?*
 BankTranListP PendingTransactionList STMTRS>BANKTRANLISTP ?*
 BalAmt amount STMTRS>LEDGERBAL>BALAMT
 DtAsOf date STMTRS>LEDGERBAL>DTASOF
 AvailBalAmt amount STMTRS>AVAILBAL>BALAMT ?*
 AvailDtAsOf date STMTRS>AVAILBAL>DTASOF ?*
 CashAdvBalAmt amount STMTRS>CASHADVBALAMT ?*
 IntRate amount STMTRS>INTRATE ?*
 BalList Balance STMTRS>BALLIST>BAL ?[]
 MktgInfo string STMTRS>MKTGINFO ?
CCStatementResponse
 TrnUID uid TRNUID
 Status Status STATUS
 CltCookie string CLTCOOKIE ?
 CurDef currsymbol CCSTMTRS>CURDEF
 CCAcctFrom CCAcct CCSTMTRS>CCACCTFROM
 BankTranList TransactionList CCSTMTRS>BANKTRANLIST ?*
 BalAmt amount CCSTMTRS>LEDGERBAL>BALAMT
 DtAsOf date CCSTMTRS>LEDGERBAL>DTASOF
 AvailBalAmt amount CCSTMTRS>AVAILBAL>BALAMT ?*
 AvailDtAsOf date CCSTMTRS>AVAILBAL>DTASOF ?*
 CashAdvBalAmt amount CCSTMTRS>CASHADVBALAMT ?
 IntRatePurch amount CCSTMTRS>INTRATEPURCH ?
 IntRateCash amount CCSTMTRS>INTRATECASH ?
 IntRateXfer amount CCSTMTRS>INTRATEXFER ?
 RewardName string CCSTMTRS>REWARDINFO>NAME ?
 RewardBal amount CCSTMTRS>REWARDINFO>REWARDBAL ?
 RewardEarned amount CCSTMTRS>REWARDINFO>REWARDEARNED ?
 BalList Balance CCSTMTRS>BALLIST>BAL ?[]
 MktgInfo string CCSTMTRS>MKTGINFO ?
InvBankTransaction
 Transactions Transaction STMTTRN ?[]
 SubAcctFund =subAcctType SUBACCTFUND
InvTranList
 DtStart date DTSTART
 DtEnd date DTEND
 InvTransactions ~tran - []
 BankTransactions InvBankTransaction INVBANKTRAN []
InvBalance
 AvailCash amount AVAILCASH
 MarginBalance amount MARGINBALANCE
 ShortBalance amount SHORTBALANCE
 BuyPower amount BUYPOWER ?
 BalList Balance BALLIST>BAL ?[]
ContribSecurity
 SecID SecurityID SECID
 PreTaxContribPct amount PRETAXCONTRIBPCT ?
 PreTaxContribAmt amount PRETAXCONTRIBAMT ?
 AfterTaxContribPct amount AFTERTAXCONTRIBPCT ?
 AfterTaxContribAmt amount AFTERTAXCONTRIBAMT ?
 MatchContribPct amount MATCHCONTRIBPCT ?
 MatchContribAmt amount MATCHCONTRIBAMT ?
 ProfitSharingContribPct amount PROFITSHARINGCONTRIBPCT ?
 ProfitSharingContribAmt amount PROFITSHARINGCONTRIBAMT ?
 RolloverContribPct amount ROLLOVERCONTRIBPCT ?
 RolloverContribAmt amount ROLLOVERCONTRIBAMT ?
 OtherVestPct amount OTHERVESTPCT ?
 OtherVestAmt amount OTHERVESTAMT ?
 OtherNonVestPct amount OTHERNONVESTPCT ?
 OtherNonVestAmt amount OTHERNONVESTAMT ?
VestInfo
 VestDate date VESTDATE ?*
 VestPct amount VESTPCT
LoanInfo
 LoanID string LOANID
 LoanDesc string LOANDESC ?
 InitialLoanBal amount INITIALLOANBAL ?
 LoanStartDate date LOANSTARTDATE ?*
 CurrentLoanBal amount CURRENTLOANBAL
 DtAsOf date DTASOF *
 LoanRate amount LOANRATE ?
 LoanPmtAmt amount LOANPMTAMT ?
 LoanPmtFreq =loanPmtFreq LOANPMTFREQ ?
 LoanPmtsInitial int LOANPMTSINITIAL ?
 LoanPmtsRemaining int LOANPMTSREMAINING ?
 LoanMaturityDate date LOANMATURITYDATE ?*
 LoanTotalProjInterest amount LOANTOTALPROJINTEREST ?
 LoanInterestToDate amount LOANINTERESTTODATE ?
 LoanExtPmtDate date LOANNEXTPMTDATE ?*
Inv401KSummaryAggregate
 PreTax amount PRETAX ?
 AfterTax amount AFTERTAX ?
 Match amount MATCH ?
 ProfitSharing amount PROFITSHARING ?
 Rollover amount ROLLOVER ?
 OtherVest amount OTHERVEST ?
 OtherNonVest amount OTHERNONVEST ?
 Total amount TOTAL
Inv401KSummaryPeriod
 DtStart date DTSTART
 DtEnd date DTEND
 Contributions Inv401KSummaryAggregate CONTRIBUTIONS ?*
 Withdrawls Inv401KSummaryAggregate WITHDRAWALS ?*
 Earnings Inv401KSummaryAggregate EARNINGS ?*
Inv401K
 EmployerName string EMPLOYERNAME
 PlanID string PLANID ?
 PlanJoinDate date PLANJOINDATE ?*
 EmployerContactInfo string EMPLOYERCONTACTINFO ?
 BrokerContactInfo string BROKERCONTACTINFO ?
 DeferPctPreTax amount DEFERPCTPRETAX ?
 DeferPctAfterTax amount DEFERPCTAFTERTAX ?
 MatchPct amount MATCHINFO>MATCHPCT ?
 MaxMatchAmt amount MATCHINFO>MAXMATCHAMT ?
 MaxMatchPct amount MATCHINFO>MAXMATCHPCT ?
 StartOfYear date MATCHINFO>STARTOFYEAR ?*
 BaseMatchAmt amount MATCHINFO>BASEMATCHAMT
 BaseMatchPct amount MATCHINFO>BASEMATCHPCT
 ContribInfo ContribSecurity CONTRIBINFO>CONTRIBSECURITY []
 CurrentVestPct amount CURRENTVESTPCT ?
 VestInfo VestInfo VESTINFO ?[]
 LoanInfo LoanInfo LOANINFO ?[]
 YearToDateSummary Inv401KSummaryPeriod INV401KSUMMARY>YEARTODATE
 InceptToDateSummary Inv401KSummaryPeriod INV401KSUMMARY>INCEPTODATE ?*
 PeriodToDate Inv401KSummaryPeriod INV401KSUMMARY>PERIODTODATE ?*
Inv401KBal
 CashBal amount CASHBAL ?
 PreTax amount PRETAX ?
 AfterTax amount AFTERTAX ?
 Match amount MATCH ?
 ProfitSharing amount PROFITSHARING ?
 Rollover amount ROLLOVER ?
 OtherVest amount OTHERVEST ?
 OtherNonVest amount OTHERNONVEST ?
 Total amount TOTAL
 BalList Balance BALLIST>BAL ?[]
InvStatementResponse
 TrnUID uid TRNUID
 Status Status STATUS
 CltCookie string CLTCOOKIE ?
 DtAsOf date INVSTMTRS>DTASOF
 CurDef currsymbol INVSTMTRS>CURDEF
 InvAcctFrom InvAcct INVSTMTRS>INVACCTFROM
 InvTranList InvTranList INVSTMTRS>INVTRANLIST ?*
 InvPosList ~position INVSTMTRS>INVPOSLIST ?[]
 InvBal InvBalance INVSTMTRS>INVBAL ?*
 InvOOList ~order INVSTMTRS>INVOOLIST ?[]
 MktgInfo string INVSTMTRS>MKTGINFO ?
 Inv401K Inv401K INVSTMTRS>INV401K ?*
 Inv401KBal Inv401KBal INVSTMTRS>INV401KBAL ?*
SecListResponse
 TrnUID uid TRNUID
 Status Status STATUS
 CltCookie string CLTCOOKIE ?
MessageSet
 Ver int MSGSETCORE>VER
 URL string MSGSETCORE>URL
 OfxSec =ofxSec MSGSETCORE>OFXSEC
 TranspSec boolean MSGSETCORE>TRANSPSEC
 SignonRealm string MSGSETCORE>SIGNONREALM
 Language string MSGSETCORE>LANGUAGE []
 SyncMode =syncMode MSGSETCORE>SYNCMODE
 RefreshSupt boolean MSGSETCORE>REFRESHSUPT ?
 RespFileER boolean MSGSETCORE>RESPFILEER
 SpName string MSGSETCORE>SPNAME
SignonInfo
 SignonRealm string SIGNONREALM
 Min int MIN
 Max int MAX
 CharType =charType CHARTYPE
 CaseSen boolean CASESEN
 Special boolean SPECIAL
 Spaces boolean SPACES
 PinCh boolean PINCH
 ChgPinFirst boolean CHGPINFIRST
 UserCred1Label string USERCRED1LABEL ?
 UserCred2Label string USERCRED2LABEL ?
 ClientUIDReq boolean CLIENTUIDREQ ?
 AuthTokenFirst boolean AUTHTOKENFIRST ?
 AuthTokenLabel string AUTHTOKENLABEL ?
 AuthTokenInfoURL string AUTHTOKENINFOURL ?
 MFAChallengeSupt boolean MFACHALLENGESUPT ?
 MFAChallengeFIRST boolean MFACHALLENGEFIRST ?
 AccessTokenReq boolean ACCESSTOKENREQ ?
ProfileResponse
 TrnUID uid TRNUID
 Status Status STATUS
 CltCookie string CLTCOOKIE ?
 MessageSetList ~msgset PROFRS>MSGSETLIST []
 SignonInfoList SignonInfo PROFRS>SIGNONINFOLIST>SIGNONINFO []
 DtProfUp date PROFRS>DTPROFUP
 FiName string PROFRS>FINAME
 Addr1 string PROFRS>ADDR1
 Addr2 string PROFRS>ADDR2 ?
 Addr3 string PROFRS>ADDR3 ?
 City string PROFRS>CITY
 State string PROFRS>STATE
 PostalCode string PROFRS>POSTALCODE
 Country string PROFRS>COUNTRY
 CsPhone string PROFRS>CSPHONE ?
 TsPhone string PROFRS>TSPHONE ?
 FaxPhone string PROFRS>FAXPHONE ?
 URL string PROFRS>URL ?
 Email string PROFRS>EMAIL ?
InvTran
 FiTID string FITID
 SrvrTID string SRVRTID ?
 DtTrade date DTTRADE
 DtSettle date DTSETTLE ?*
 ReversalFiTID string REVERSALFITID ?
 Memo string MEMO ?
InvBuy
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 Units amount UNITS
 UnitPrice amount UNITPRICE
 Markup amount MARKUP ?
 Commission amount COMMISSION ?
 Taxes amount TAXES ?
 Fees amount FEES ?
 Load amount LOAD ?
 Total amount TOTAL
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
 SubAcctSec =subAcctType SUBACCTSEC
 SubAcctFund =subAcctType SUBACCTFUND
 LoanID string LOANID ?
 LoanPrincipal amount LOANPRINCIPAL ?
 LoanInterest amount LOANINTEREST ?
 Inv401kSource =inv401kSource INV401KSOURCE ?
 DtPayroll date DTPAYROLL ?*
 PriorYearContrib boolean PRIORYEARCONTRIB ?
BuyDebt
 InvBuy InvBuy INVBUY
 AccrdInt amount ACCRDINT ?
BuyMF
 InvBuy InvBuy INVBUY
 BuyType =buyType BUYTYPE
 RelFiTID string RELFITID ?
BuyOpt
 InvBuy InvBuy INVBUY
 OptBuyType =optBuyType OPTBUYTYPE
 ShPerCtrct int SHPERCTRCT
BuyOther
 InvBuy InvBuy INVBUY
BuyStock
 InvBuy InvBuy INVBUY
 BuyType =buyType BUYTYPE
ClosureOpt
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 OptAction =optAction OPTACTION
 Units amount UNITS
 ShPerCtrct int SHPERCTRCT
 SubAcctSec =subAcctType SUBACCTSEC
 RelFiTID string RELFITID ?
 Gain amount GAIN ?
Income
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 IncomeType =incomeType INCOMETYPE
 Total amount TOTAL
 SubAcctSec =subAcctType SUBACCTSEC
 SubAcctFund =subAcctType SUBACCTFUND
 TaxExempt boolean TAXEXEMPT ?
 Withholding amount WITHHOLDING ?
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
 Inv401kSource =inv401kSource INV401KSOURCE ?
InvExpense
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 Total amount TOTAL
 SubAcctSec =subAcctType SUBACCTSEC
 SubAcctFund =subAcctType SUBACCTFUND
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
 Inv401kSource =inv401kSource INV401KSOURCE ?
JrnlFund
 InvTran InvTran INVTRAN
 Total amount TOTAL
 SubAcctFrom =subAcctType SUBACCTFROM
 SubAcctTo =subAcctType SUBACCTTO
JrnlSec
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 SubAcctFrom =subAcctType SUBACCTFROM
 SubAcctTo =subAcctType SUBACCTTO
 Units amount UNITS
MarginInterest
 InvTran InvTran INVTRAN
 Total amount TOTAL
 SubAcctFund =subAcctType SUBACCTFUND
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
Reinvest
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 IncomeType =incomeType INCOMETYPE
 Total amount TOTAL
 SubAcctSec =subAcctType SUBACCTSEC
 Units amount UNITS
 UnitPrice amount UNITPRICE
 Commission amount COMMISSION ?
 Taxes amount TAXES ?
 Fees amount FEES ?
 Load amount LOAD ?
 TaxExempt boolean TAXEXEMPT ?
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
 Inv401kSource =inv401kSource INV401KSOURCE ?
RetOfCap
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 Total amount TOTAL
 SubAcctSec =subAcctType SUBACCTSEC
 SubAcctFund =subAcctType SUBACCTFUND
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
 Inv401kSource =inv401kSource INV401KSOURCE ?
InvSell
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 Units amount UNITS
 UnitPrice amount UNITPRICE
 Markdown amount MARKDOWN ?
 Commission amount COMMISSION ?
 Taxes amount TAXES ?
 Fees amount FEES ?
 Load amount LOAD ?
 Withholding amount WITHHOLDING ?
 TaxExempt boolean TAXEXEMPT ?
 Total amount TOTAL
 Gain amount GAIN ?
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
 SubAcctSec =subAcctType SUBACCTSEC
 SubAcctFund =subAcctType SUBACCTFUND
 LoanID string LOANID ?
 StateWithholding amount STATEWITHHOLDING ?
 Penalty amount PENALTY ?
 Inv401kSource =inv401kSource INV401KSOURCE ?
SellDebt
 InvSell InvSell INVSELL
 SellReason =sellReason SELLREASON
 AccrdInt amount ACCRDINT ?
SellMF
 InvSell InvSell INVSELL
 SellType =sellType SELLTYPE
 AvgCostBasis amount AVGCOSTBASIS
 RelFiTID string RELFITID ?
SellOpt
 InvSell InvSell INVSELL
 OptSellType =optSellType OPTSELLTYPE
 ShPerCtrct int SHPERCTRCT
 RelFiTID string RELFITID ?
 RelType =relType RELTYPE ?
 Secured =secured SECURED ?
SellOther
 InvSell InvSell INVSELL
SellStock
 InvSell InvSell INVSELL
 SellType =sellType SELLTYPE
Split
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 SubAcctSec =subAcctType SUBACCTSEC
 OldUnits amount OLDUNITS
 NewUnits amount NEWUNITS
 Numerator int NUMERATOR
 Denominator int DENOMINATOR
 Currency Currency CURRENCY ?
 OrigCurrency Currency ORIGCURRENCY ?
 FracCash amount FRACCASH ?
 SubAcctFund =subAcctType SUBACCTFUND ?
 Inv401kSource =inv401kSource INV401KSOURCE ?
Transfer
 InvTran InvTran INVTRAN
 SecID SecurityID SECID
 SubAcctSec =subAcctType SUBACCTSEC
 Units amount UNITS
 TferAction =tferAction TFERACTION
 PosType =posType POSTYPE
 InvAcctFrom InvAcct INVACCTFROM ?
 AvgCostBasis amount AVGCOSTBASIS ?
 UnitPrice amount UNITPRICE ?
 DtPurchase date DTPURCHASE ?*
 Inv401kSource =inv401kSource INV401KSOURCE ?
InvPosition
 SecID SecurityID SECID
 HeldInAcct =subAcctType HELDINACCT
 PosType =posType POSTYPE
 Units amount UNITS
 UnitPrice amount UNITPRICE
 MktVal amount MKTVAL
 AvgCostBasis amount AVGCOSTBASIS ?
 DtPriceAsOf date DTPRICEASOF
 Currency Currency CURRENCY ?*
 Memo string MEMO ?
 Inv401kSource =inv401kSource INV401KSOURCE ?
DebtPosition
 InvPos InvPosition INVPOS
MFPosition
 InvPos InvPosition INVPOS
 UnitsStreet amount UNITSSTREET ?
 UnitsUser amount UNITSUSER ?
 ReinvDiv boolean REINVDIV ?
 ReinvCG boolean REINVCG ?
OptPosition
 InvPos InvPosition INVPOS
 Secured =secured SECURED ?
OtherPosition
 InvPos InvPosition INVPOS
StockPosition
 InvPos InvPosition INVPOS
 UnitsStreet amount UNITSSTREET ?
 UnitsUser amount UNITSUSER ?
 ReinvDiv boolean REINVDIV ?
OO
 FiTID string FITID
 SrvrTID string SRVRTID ?
 SecID SecurityID SECID
 DtPlaced date DTPLACED
 Units amount UNITS
 SubAcct =subAcctType SUBACCT
 Duration =duration DURATION
 Restriction =restriction RESTRICTION
 MinUnits amount MINUNITS ?
 LimitPrice amount LIMITPRICE ?
 StopPrice amount STOPPRICE ?
 Memo string MEMO ?
 Currency Currency CURRENCY ?*
 Inv401kSource =inv401kSource INV401KSOURCE ?
OOBuyDebt
 OO OO OO
 Auction boolean AUCTION
 DtAuction date DTAUCTION ?*
OOBuyMF
 OO OO OO
 BuyType =buyType BUYTYPE
 UnitType =unitType UNITTYPE
OOBuyOpt
 OO OO OO
 OptBuyType =optBuyType OPTBUYTYPE
OOBuyOther
 OO OO OO
 UnitType =unitType UNITTYPE
OOBuyStock
 OO OO OO
 BuyType =buyType BUYTYPE
OOSellDebt
 OO OO OO
OOSellMF
 OO OO OO
 SellType =sellType SELLTYPE
 UnitType =unitType UNITTYPE
 SellAll boolean SELLALL
OOSellOpt
 OO OO OO
 OptSellType =optSellType OPTSELLTYPE
OOSellOther
 OO OO OO
 UnitType =unitType UNITTYPE
OOSellStock
 OO OO OO
 SellType =sellType SELLTYPE
OOSwitchMF
 OO OO OO
 SecID SecurityID SECID
 UnitType =unitType UNITTYPE
 SwitchAll boolean SWITCHALL
SecInfo
 SecID SecurityID SECID
 SecName string SECNAME
 Ticker string TICKER ?
 FiID string FIID ?
 Rating string RATING ?
 UnitPrice amount UNITPRICE ?
 DtAsOf date DTASOF ?*
 Currency Currency CURRENCY ?*
 Memo string MEMO ?
DebtInfo
 SecInfo SecInfo SECINFO
 ParValue amount PARVALUE
 DebtType =debtType DEBTTYPE
 DebtClass =debtClass DEBTCLASS ?
 CouponRate amount COUPONRT ?
 DtCoupon date DTCOUPON ?*
 CouponFreq =couponFreq COUPONFREQ ?
 CallPrice amount CALLPRICE ?
 YieldToCall amount YIELDTOCALL ?
 DtCall date DTCALL ?*
 CallType =callType CALLTYPE
 YieldToMat amount YIELDTOMAT ?
 DtMat date DTMAT ?*
 AssetClass =assetClass ASSETCLASS ?
 FiAssetClass string FIASSETCLASS ?
AssetPortion
 AssetClass =assetClass ASSETCLASS
 Percent amount PERCENT
FiAssetPortion
 FiAssetClass string FIASSETCLASS ?
 Percent amount PERCENT
MFInfo
 SecInfo SecInfo SECINFO
 MfType =mfType MFTYPE
 Yield amount YIELD ?
 DtYieldAsOf date DTYIELDASOF ?*
 AssetClasses AssetPortion MFASSETCLASS>PORTION []
 FiAssetClasses FiAssetPortion FIMFASSETCLASS>FIPORTION []
OptInfo
 SecInfo SecInfo SECINFO
 OptType =optType OPTTYPE
 StrikePrice amount STRIKEPRICE
 DtExpire date DTEXPIRE
 ShPerCtrct int SHPERCTRCT
 SecID SecurityID SECID ?*
 AssetClass =assetClass ASSETCLASS ?
 FiAssetClass string FIASSETCLASS ?
OtherInfo
 SecInfo SecInfo SECINFO
 TypeDesc string TYPEDESC ?
 AssetClass =assetClass ASSETCLASS ?
 FiAssetClass string FIASSETCLASS ?
StockInfo
 SecInfo SecInfo SECINFO
 StockType =stockType STOCKTYPE ?
 Yield amount YIELD ?
 DtYieldAsOf date DTYIELDASOF ?*
 AssetClass =assetClass ASSETCLASS ?
 FiAssetClass string FIASSETCLASS ?
SecurityList
 Securities ~security - []
`
