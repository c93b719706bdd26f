package p

import "verif/harness/v"

// 16 patterns of optional elements, all texts and numbers symbolic (texts of
// one letter or digit, numbers of two digits, amounts of two digits and two
// places), as XML and as SGML.
func C12_bank_read() { readPattern("StatementResponse") }

// Each optional element alone absent or alone present; symbolic contents.
func C12_bank_single() { readSingle("StatementResponse") }

// 16 patterns of optional elements written and read back; texts symbolic, the
// other values distinct; the document with all elements is compared exactly.
func C12_bank_write() { writePattern("StatementResponse", 1) }

// Each optional element alone absent or alone present, written and read back.
func C12_bank_write_single() { writeSingle("StatementResponse") }

// As for banks.
func C12_card_read() { readPattern("CCStatementResponse") }

// As for banks.
func C12_card_single() { readSingle("CCStatementResponse") }

// As for banks.
func C12_card_write() { writePattern("CCStatementResponse", 1) }

// As for banks.
func C12_card_write_single() { writeSingle("CCStatementResponse") }

// As for bank statements.
func C13_read() { readPattern("InvStatementResponse") }

// As for bank statements.
func C13_single() { readSingle("InvStatementResponse") }

// As for bank statements.
func C13_write() { writePattern("InvStatementResponse", 5) }

// As for bank statements.
func C13_write_single() { writeSingle("InvStatementResponse") }

// As for bank statements.
func C14_read() { readPattern("SecurityList") }

// As for bank statements.
func C14_single() { readSingle("SecurityList") }

// As for bank statements.
func C14_write() { writePattern("SecurityList", 1) }

// As for bank statements.
func C14_write_single() { writeSingle("SecurityList") }

// As for bank statements.
func C14_response_read() { readPattern("SecListResponse") }

// As for bank statements.
func C14_response_write() { writePattern("SecListResponse", 1) }

// As for bank statements.
func C15_accounts_read() { readPattern("AcctInfoResponse") }

// As for bank statements.
func C15_accounts_single() { readSingle("AcctInfoResponse") }

// As for bank statements.
func C15_accounts_write() { writePattern("AcctInfoResponse", 1) }

// As for bank statements.
func C15_accounts_write_single() { writeSingle("AcctInfoResponse") }

// As for bank statements.
func C15_profile_read() { readPattern("ProfileResponse") }

// As for bank statements.
func C15_profile_single() { readSingle("ProfileResponse") }

// As for bank statements.
func C15_profile_write() { writePattern("ProfileResponse", 1) }

// As for bank statements.
func C15_profile_write_single() { writeSingle("ProfileResponse") }

// Lists of two or three members of which every other one lacks all its
// optional elements, the first or the second; read.
func C12_bank_uneven() { readUneven("StatementResponse", 1) }

// As above; written and read back.
func C12_bank_uneven_write() { writeUneven("StatementResponse", 1) }

// Lists of two or three members of which every other one lacks all its
// optional elements, the first or the second; read.
func C12_card_uneven() { readUneven("CCStatementResponse", 1) }

// As above; written and read back.
func C12_card_uneven_write() { writeUneven("CCStatementResponse", 1) }

// Lists of two or three members (two of each kind) of which every other one lacks all its
// optional elements, the first or the second; read.
func C13_uneven() { readUneven("InvStatementResponse", 5) }

// As above; written and read back.
func C13_uneven_write() { writeUneven("InvStatementResponse", 5) }

// Lists of two or three members (two of each kind) of which every other one lacks all its
// optional elements, the first or the second; read.
func C14_uneven() { readUneven("SecurityList", 2) }

// As above; written and read back.
func C14_uneven_write() { writeUneven("SecurityList", 2) }

// Lists of two or three members of which every other one lacks all its
// optional elements, the first or the second; read.
func C15_accounts_uneven() { readUneven("AcctInfoResponse", 1) }

// As above; written and read back.
func C15_accounts_uneven_write() { writeUneven("AcctInfoResponse", 1) }

// Lists of two or three members (two of each kind) of which every other one lacks all its
// optional elements, the first or the second; read.
func C15_profile_uneven() { readUneven("ProfileResponse", 3) }

// As above; written and read back.
func C15_profile_uneven_write() { writeUneven("ProfileResponse", 3) }

// bank statement responses where any one of the lists has 10, 33 or 130 members, without
// other optional elements: read. Symbolic texts.
func C12_bank_many_read() { readMany("StatementResponse", "102") }

// the same with 9 or 40 members: written and read back
func C12_bank_many_write() { writeMany("StatementResponse", "220") }

// card statement responses where any one of the lists has 10, 33 or 130 members, without
// other optional elements: read. Symbolic texts.
func C12_card_many_read() { readMany("CCStatementResponse", "203") }

// the same with 9 or 40 members: written and read back
func C12_card_many_write() { writeMany("CCStatementResponse", "160") }

// investment statement responses where any one of the lists has 10, 33 or 130 members, without
// other optional elements: read. Symbolic texts.
func C13_many_read() { readMany("InvStatementResponse", "211") }

// the same with 9 or 40 members: written and read back
func C13_many_write() { writeMany("InvStatementResponse", "160") }

// securities list responses where any one of the lists has 10, 33 or 130 members, without
// other optional elements: read. Symbolic texts.
func C14_many_read() { readMany("SecurityList", "151") }

// the same with 9 or 40 members: written and read back
func C14_many_write() { writeMany("SecurityList", "220") }

// account list responses where any one of the lists has 10, 33 or 130 members, without
// other optional elements: read. Symbolic texts.
func C15_accounts_many_read() { readMany("AcctInfoResponse", "220") }

// the same with 9 or 40 members: written and read back
func C15_accounts_many_write() { writeMany("AcctInfoResponse", "160") }

// profile responses where any one of the lists has 10, 33 or 130 members, without
// other optional elements: read. Symbolic texts.
func C15_profile_many_read() { readMany("ProfileResponse", "103") }

// the same with 9 or 40 members: written and read back
func C15_profile_many_write() { writeMany("ProfileResponse", "220") }

// All elements, or the required ones, in each of the eleven versions; read, or
// written and read back.
func C12_versions() {
	versions([]string{"StatementResponse", "CCStatementResponse"}[v.Choose("message", 2)])
}

// All elements, the required ones and those that need not be there zero:
// false, 0 and no text; read, or written and read back.
func C12_zero() { zeros([]string{"StatementResponse", "CCStatementResponse"}[v.Choose("message", 2)]) }

// All elements, or the required ones, in each of the eleven versions; read, or
// written and read back.
func C13_versions() { versions("InvStatementResponse") }

// All elements, the required ones and those that need not be there zero:
// false, 0 and no text; read, or written and read back.
func C13_zero() { zeros("InvStatementResponse") }

// All elements, or the required ones, in each of the eleven versions; read, or
// written and read back.
func C14_versions() { versions([]string{"SecurityList", "SecListResponse"}[v.Choose("message", 2)]) }

// All elements, the required ones and those that need not be there zero:
// false, 0 and no text; read, or written and read back.
func C14_zero() { zeros([]string{"SecurityList", "SecListResponse"}[v.Choose("message", 2)]) }

// All elements, or the required ones, in each of the eleven versions; read, or
// written and read back.
func C15_versions() {
	versions([]string{"AcctInfoResponse", "ProfileResponse"}[v.Choose("message", 2)])
}

// All elements, the required ones and those that need not be there zero:
// false, 0 and no text; read, or written and read back.
func C15_zero() { zeros([]string{"AcctInfoResponse", "ProfileResponse"}[v.Choose("message", 2)]) }

// bank and credit card statement responses where any one of the lists has 1030
// members: read; or
// has 270: written and read back.
func C12_bulk() {
	readBulk([]string{"StatementResponse", "CCStatementResponse"}[v.Choose("message", 2)], "102")
}

// investment statement responses where any one of the lists has 1030 members:
// read; or has 270: written and read back.
func C13_bulk() { readBulk("InvStatementResponse", "203") }

// securities lists with 1030 members: read; or
// has 270: written and read back.
func C14_bulk() { readBulk("SecurityList", "103") }

// account lists and profiles where any one of the lists has 1030 members: read; or
// has 270: written and read back.
func C15_bulk() {
	readBulk([]string{"AcctInfoResponse", "ProfileResponse"}[v.Choose("message", 2)], "220")
}

// bank and credit card statement responses with lists of which the
// members are alike but for symbolic texts of one letter or digit, members of a
// kind one after the other or by turns, with or without optional values: read, or
// written and read back.
func C12_alike() {
	readAlike([]string{"StatementResponse", "CCStatementResponse"}[v.Choose("message", 2)], 1)
}

// investment statement responses with lists of which the
// members are alike but for symbolic texts of one letter or digit, members of a
// kind one after the other or by turns, with or without optional values: read, or
// written and read back.
func C13_alike() { readAlike("InvStatementResponse", 10) }

// securities lists with lists of which the
// members are alike but for symbolic texts of one letter or digit, members of a
// kind one after the other or by turns, with or without optional values: read, or
// written and read back.
func C14_alike() { readAlike("SecurityList", 3) }

// account lists and profiles with lists of which the
// members are alike but for symbolic texts of one letter or digit, members of a
// kind one after the other or by turns, with or without optional values: read, or
// written and read back.
func C15_alike() {
	if v.Choose("message", 2) == 1 {
		readAlike("ProfileResponse", 7)
	} else {
		readAlike("AcctInfoResponse", 3)
	}
}
