package main

import "strconv"

// Names of ANSI/SCTE 35 2022b tables 22 and 23, independent of the code.

var segNames = map[uint32]string{
	0x00: "Not Indicated", 0x01: "Content Identification",
	0x10: "Program Start", 0x11: "Program End", 0x12: "Program Early Termination", 0x13: "Program Breakaway",
	0x14: "Program Resumption", 0x15: "Program Runover Planned", 0x16: "Program Runover Unplanned",
	0x17: "Program Overlap Start", 0x18: "Program Blackout Override", 0x19: "Program Start - In Progress",
	0x20: "Chapter Start", 0x21: "Chapter End", 0x22: "Break Start", 0x23: "Break End",
	0x24: "Opening Credit Start", 0x25: "Opening Credit End", 0x26: "Closing Credit Start", 0x27: "Closing Credit End",
	0x30: "Provider Advertisement Start", 0x31: "Provider Advertisement End",
	0x32: "Distributor Advertisement Start", 0x33: "Distributor Advertisement End",
	0x34: "Provider Placement Opportunity Start", 0x35: "Provider Placement Opportunity End",
	0x36: "Distributor Placement Opportunity Start", 0x37: "Distributor Placement Opportunity End",
	0x38: "Provider Overlay Placement Opportunity Start", 0x39: "Provider Overlay Placement Opportunity End",
	0x3A: "Distributor Overlay Placement Opportunity Start", 0x3B: "Distributor Overlay Placement Opportunity End",
	0x3C: "Provider Promo Start", 0x3D: "Provider Promo End", 0x3E: "Distributor Promo Start", 0x3F: "Distributor Promo End",
	0x40: "Unscheduled Event Start", 0x41: "Unscheduled Event End",
	0x42: "Alternate Content Opportunity Start", 0x43: "Alternate Content Opportunity End",
	0x44: "Provider Ad Block Start", 0x45: "Provider Ad Block End",
	0x46: "Distributor Ad Block Start", 0x47: "Distributor Ad Block End",
	0x50: "Network Start", 0x51: "Network End",
}

func segName(t uint32) string {
	if n, ok := segNames[t]; ok {
		return n
	}
	return "Unknown"
}

var upidNames = map[uint32]string{
	0x00: "Not Used", 0x01: "User Defined", 0x02: "ISCI", 0x03: "Ad-ID", 0x04: "UMID", 0x05: "ISAN (Deprecated)", 0x06: "ISAN",
	0x07: "TID", 0x08: "TI", 0x09: "ADI", 0x0B: "ATSC Content Identifier", 0x0C: "MPU()", 0x0D: "MID()",
	0x0E: "ADS Information", 0x0F: "URI", 0x10: "UUID", 0x11: "SCR",
}

func upidName(t uint32, prefix int) string {
	if t == 0x0A {
		switch prefix {
		case 5237:
			return "EIDR: Party ID"
		case 5238:
			return "EIDR: User ID"
		case 5239:
			return "EIDR: Service ID"
		case 5240:
			return "EIDR: Content ID"
		}
		return "EIDR: "
	}
	if n, ok := upidNames[t]; ok {
		return n
	}
	return "Unknown"
}

func upidNameOf(u UPID) string {
	p := -1
	if len(u.Raw) >= 2 {
		p = int(u.Raw[0])<<8 | int(u.Raw[1])
	}
	return upidName(u.Type, p)
}

func sapName(v uint32) string {
	if v < 3 {
		return "Type " + strconv.Itoa(int(v)+1)
	}
	return "Not Specified"
}

func encName(v uint32) string {
	switch v {
	case 0:
		return "No encryption"
	case 1:
		return "DES – ECB mode"
	case 2:
		return "DES – CBC mode"
	case 3:
		return "Triple DES EDE3 – ECB mode"
	}
	return "User private"
}

func deviceName(v uint32) string {
	return []string{"Restrict Group 0", "Restrict Group 1", "Restrict Group 2", "None"}[v&3]
}

func fourCC(v uint32) string {
	return string([]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
}

// durTicks is the duration of a section in ticks.
func durTicks(m *Sec) uint64 {
	if c, ok := m.Cmd.(*CInsert); ok && c.Break != nil {
		return c.Break.Dur
	}
	var t uint64
	for _, d := range m.Desc {
		if s, ok := d.(*DSeg); ok && s.Dur != nil {
			t += *s.Dur
		}
	}
	return t
}
