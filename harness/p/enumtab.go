package p

import "github.com/aclindsa/ofxgo"

// enums lists every enumerated element: its constants and, in the same order,
// the words of the OFX specification they stand for.
var enums = []func(mode int){
	enumCase("ofxVersion", ofxgo.NewOfxVersion, []string{"102", "103", "151", "160", "200", "201", "202", "203", "210", "211", "220"},
		ofxgo.OfxVersion102, ofxgo.OfxVersion103, ofxgo.OfxVersion151, ofxgo.OfxVersion160, ofxgo.OfxVersion200, ofxgo.OfxVersion201, ofxgo.OfxVersion202, ofxgo.OfxVersion203, ofxgo.OfxVersion210, ofxgo.OfxVersion211, ofxgo.OfxVersion220),
	enumCase("acctType", ofxgo.NewAcctType, []string{"CHECKING", "SAVINGS", "MONEYMRKT", "CREDITLINE", "CD"},
		ofxgo.AcctTypeChecking, ofxgo.AcctTypeSavings, ofxgo.AcctTypeMoneyMrkt, ofxgo.AcctTypeCreditLine, ofxgo.AcctTypeCD),
	enumCase("trnType", ofxgo.NewTrnType, []string{"CREDIT", "DEBIT", "INT", "DIV", "FEE", "SRVCHG", "DEP", "ATM", "POS", "XFER", "CHECK", "PAYMENT", "CASH", "DIRECTDEP", "DIRECTDEBIT", "REPEATPMT", "HOLD", "OTHER"},
		ofxgo.TrnTypeCredit, ofxgo.TrnTypeDebit, ofxgo.TrnTypeInt, ofxgo.TrnTypeDiv, ofxgo.TrnTypeFee, ofxgo.TrnTypeSrvChg, ofxgo.TrnTypeDep, ofxgo.TrnTypeATM, ofxgo.TrnTypePOS, ofxgo.TrnTypeXfer, ofxgo.TrnTypeCheck, ofxgo.TrnTypePayment, ofxgo.TrnTypeCash, ofxgo.TrnTypeDirectDep, ofxgo.TrnTypeDirectDebit, ofxgo.TrnTypeRepeatPmt, ofxgo.TrnTypeHold, ofxgo.TrnTypeOther),
	enumCase("imageType", ofxgo.NewImageType, []string{"STATEMENT", "TRANSACTION", "TAX"},
		ofxgo.ImageTypeStatement, ofxgo.ImageTypeTransaction, ofxgo.ImageTypeTax),
	enumCase("imageRefType", ofxgo.NewImageRefType, []string{"OPAQUE", "URL", "FORMURL"},
		ofxgo.ImageRefTypeOpaque, ofxgo.ImageRefTypeURL, ofxgo.ImageRefTypeFormURL),
	enumCase("checkSup", ofxgo.NewCheckSup, []string{"FRONTONLY", "BACKONLY", "FRONTANDBACK"},
		ofxgo.CheckSupFrontOnly, ofxgo.CheckSupBackOnly, ofxgo.CheckSupFrontAndBack),
	enumCase("correctAction", ofxgo.NewCorrectAction, []string{"DELETE", "REPLACE"},
		ofxgo.CorrectActionDelete, ofxgo.CorrectActionReplace),
	enumCase("balType", ofxgo.NewBalType, []string{"DOLLAR", "PERCENT", "NUMBER"},
		ofxgo.BalTypeDollar, ofxgo.BalTypePercent, ofxgo.BalTypeNumber),
	enumCase("inv401kSource", ofxgo.NewInv401kSource, []string{"PRETAX", "AFTERTAX", "MATCH", "PROFITSHARING", "ROLLOVER", "OTHERVEST", "OTHERNONVEST"},
		ofxgo.Inv401kSourcePreTax, ofxgo.Inv401kSourceAfterTax, ofxgo.Inv401kSourceMatch, ofxgo.Inv401kSourceProfitSharing, ofxgo.Inv401kSourceRollover, ofxgo.Inv401kSourceOtherVest, ofxgo.Inv401kSourceOtherNonVest),
	enumCase("subAcctType", ofxgo.NewSubAcctType, []string{"CASH", "MARGIN", "SHORT", "OTHER"},
		ofxgo.SubAcctTypeCash, ofxgo.SubAcctTypeMargin, ofxgo.SubAcctTypeShort, ofxgo.SubAcctTypeOther),
	enumCase("buyType", ofxgo.NewBuyType, []string{"BUY", "BUYTOCOVER"},
		ofxgo.BuyTypeBuy, ofxgo.BuyTypeBuyToCover),
	enumCase("optAction", ofxgo.NewOptAction, []string{"EXERCISE", "ASSIGN", "EXPIRE"},
		ofxgo.OptActionExercise, ofxgo.OptActionAssign, ofxgo.OptActionExpire),
	enumCase("tferAction", ofxgo.NewTferAction, []string{"IN", "OUT"},
		ofxgo.TferActionIn, ofxgo.TferActionOut),
	enumCase("posType", ofxgo.NewPosType, []string{"LONG", "SHORT"},
		ofxgo.PosTypeLong, ofxgo.PosTypeShort),
	enumCase("secured", ofxgo.NewSecured, []string{"NAKED", "COVERED"},
		ofxgo.SecuredNaked, ofxgo.SecuredCovered),
	enumCase("duration", ofxgo.NewDuration, []string{"DAY", "GOODTILCANCEL", "IMMEDIATE"},
		ofxgo.DurationDay, ofxgo.DurationGoodTilCancel, ofxgo.DurationImmediate),
	enumCase("restriction", ofxgo.NewRestriction, []string{"ALLORNONE", "MINUNITS", "NONE"},
		ofxgo.RestrictionAllOrNone, ofxgo.RestrictionMinUnits, ofxgo.RestrictionNone),
	enumCase("unitType", ofxgo.NewUnitType, []string{"SHARES", "CURRENCY"},
		ofxgo.UnitTypeShares, ofxgo.UnitTypeCurrency),
	enumCase("optBuyType", ofxgo.NewOptBuyType, []string{"BUYTOOPEN", "BUYTOCLOSE"},
		ofxgo.OptBuyTypeBuyToOpen, ofxgo.OptBuyTypeBuyToClose),
	enumCase("sellType", ofxgo.NewSellType, []string{"SELL", "SELLSHORT"},
		ofxgo.SellTypeSell, ofxgo.SellTypeSellShort),
	enumCase("loanPmtFreq", ofxgo.NewLoanPmtFreq, []string{"WEEKLY", "BIWEEKLY", "TWICEMONTHLY", "MONTHLY", "FOURWEEKS", "BIMONTHLY", "QUARTERLY", "SEMIANNUALLY", "ANNUALLY", "OTHER"},
		ofxgo.LoanPmtFreqWeekly, ofxgo.LoanPmtFreqBiweekly, ofxgo.LoanPmtFreqTwiceMonthly, ofxgo.LoanPmtFreqMonthly, ofxgo.LoanPmtFreqFourWeeks, ofxgo.LoanPmtFreqBiMonthly, ofxgo.LoanPmtFreqQuarterly, ofxgo.LoanPmtFreqSemiannually, ofxgo.LoanPmtFreqAnnually, ofxgo.LoanPmtFreqOther),
	enumCase("incomeType", ofxgo.NewIncomeType, []string{"CGLONG", "CGSHORT", "DIV", "INTEREST", "MISC"},
		ofxgo.IncomeTypeCGLong, ofxgo.IncomeTypeCGShort, ofxgo.IncomeTypeDiv, ofxgo.IncomeTypeInterest, ofxgo.IncomeTypeMisc),
	enumCase("sellReason", ofxgo.NewSellReason, []string{"CALL", "SELL", "MATURITY"},
		ofxgo.SellReasonCall, ofxgo.SellReasonSell, ofxgo.SellReasonMaturity),
	enumCase("optSellType", ofxgo.NewOptSellType, []string{"SELLTOCLOSE", "SELLTOOPEN"},
		ofxgo.OptSellTypeSellToClose, ofxgo.OptSellTypeSellToOpen),
	enumCase("relType", ofxgo.NewRelType, []string{"SPREAD", "STRADDLE", "NONE", "OTHER"},
		ofxgo.RelTypeSpread, ofxgo.RelTypeStraddle, ofxgo.RelTypeNone, ofxgo.RelTypeOther),
	enumCase("charType", ofxgo.NewCharType, []string{"ALPHAONLY", "NUMERICONLY", "ALPHAORNUMERIC", "ALPHAANDNUMERIC"},
		ofxgo.CharTypeAlphaOnly, ofxgo.CharTypeNumericOnly, ofxgo.CharTypeAlphaOrNumeric, ofxgo.CharTypeAlphaAndNumeric),
	enumCase("syncMode", ofxgo.NewSyncMode, []string{"FULL", "LITE"},
		ofxgo.SyncModeFull, ofxgo.SyncModeLite),
	enumCase("ofxSec", ofxgo.NewOfxSec, []string{"NONE", "TYPE 1"},
		ofxgo.OfxSecNone, ofxgo.OfxSecType1),
	enumCase("debtType", ofxgo.NewDebtType, []string{"COUPON", "ZERO"},
		ofxgo.DebtTypeCoupon, ofxgo.DebtTypeZero),
	enumCase("debtClass", ofxgo.NewDebtClass, []string{"TREASURY", "MUNICIPAL", "CORPORATE", "OTHER"},
		ofxgo.DebtClassTreasury, ofxgo.DebtClassMunicipal, ofxgo.DebtClassCorporate, ofxgo.DebtClassOther),
	enumCase("couponFreq", ofxgo.NewCouponFreq, []string{"MONTHLY", "QUARTERLY", "SEMIANNUAL", "ANNUAL", "OTHER"},
		ofxgo.CouponFreqMonthly, ofxgo.CouponFreqQuarterly, ofxgo.CouponFreqSemiannual, ofxgo.CouponFreqAnnual, ofxgo.CouponFreqOther),
	enumCase("callType", ofxgo.NewCallType, []string{"CALL", "PUT", "PREFUND", "MATURITY"},
		ofxgo.CallTypeCall, ofxgo.CallTypePut, ofxgo.CallTypePrefund, ofxgo.CallTypeMaturity),
	enumCase("assetClass", ofxgo.NewAssetClass, []string{"DOMESTICBOND", "INTLBOND", "LARGESTOCK", "SMALLSTOCK", "INTLSTOCK", "MONEYMRKT", "OTHER"},
		ofxgo.AssetClassDomesticBond, ofxgo.AssetClassIntlBond, ofxgo.AssetClassLargeStock, ofxgo.AssetClassSmallStock, ofxgo.AssetClassIntlStock, ofxgo.AssetClassMoneyMrkt, ofxgo.AssetClassOther),
	enumCase("mfType", ofxgo.NewMfType, []string{"OPENEND", "CLOSEEND", "OTHER"},
		ofxgo.MfTypeOpenEnd, ofxgo.MfTypeCloseEnd, ofxgo.MfTypeOther),
	enumCase("optType", ofxgo.NewOptType, []string{"PUT", "CALL"},
		ofxgo.OptTypePut, ofxgo.OptTypeCall),
	enumCase("stockType", ofxgo.NewStockType, []string{"COMMON", "PREFERRED", "CONVERTIBLE", "OTHER"},
		ofxgo.StockTypeCommon, ofxgo.StockTypePreferred, ofxgo.StockTypeConvertible, ofxgo.StockTypeOther),
	enumCase("holderType", ofxgo.NewHolderType, []string{"INDIVIDUAL", "JOINT", "CUSTODIAL", "TRUST", "OTHER"},
		ofxgo.HolderTypeIndividual, ofxgo.HolderTypeJoint, ofxgo.HolderTypeCustodial, ofxgo.HolderTypeTrust, ofxgo.HolderTypeOther),
	enumCase("acctClassification", ofxgo.NewAcctClassification, []string{"PERSONAL", "BUSINESS", "CORPORATE", "OTHER"},
		ofxgo.AcctClassificationPersonal, ofxgo.AcctClassificationBusiness, ofxgo.AcctClassificationCorporate, ofxgo.AcctClassificationOther),
	enumCase("svcStatus", ofxgo.NewSvcStatus, []string{"AVAIL", "PEND", "ACTIVE"},
		ofxgo.SvcStatusAvail, ofxgo.SvcStatusPend, ofxgo.SvcStatusActive),
	enumCase("invAcctType", ofxgo.NewInvAcctType, []string{"INDIVIDUAL", "JOINT", "TRUST", "CORPORATE"},
		ofxgo.InvAcctTypeIndividual, ofxgo.InvAcctTypeJoint, ofxgo.InvAcctTypeTrust, ofxgo.InvAcctTypeCorporate),
	enumCase("usProductType", ofxgo.NewUsProductType, []string{"401K", "403B", "IRA", "KEOGH", "OTHER", "SARSEP", "SIMPLE", "NORMAL", "TDA", "TRUST", "UGMA"},
		ofxgo.UsProductType401K, ofxgo.UsProductType403B, ofxgo.UsProductTypeIRA, ofxgo.UsProductTypeKEOGH, ofxgo.UsProductTypeOther, ofxgo.UsProductTypeSARSEP, ofxgo.UsProductTypeSimple, ofxgo.UsProductTypeNormal, ofxgo.UsProductTypeTDA, ofxgo.UsProductTypeTrust, ofxgo.UsProductTypeUGMA),
}
