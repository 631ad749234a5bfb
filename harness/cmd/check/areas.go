package main

var areas = map[string]area{
	"C01": {pkg: "xsync", modes: "p", times: 31},
	"C02": {pkg: "xsync", modes: "sr", times: 8},
	"C03": {pkg: "xsync", modes: "psr", times: 7},
	"C04": {pkg: "xsync", modes: "ps", times: 13},
	"C05": {pkg: "xsync", modes: "psr", times: 10},
	"C06": {pkg: "xsync", modes: "sr", times: 9},
	"C07": {pkg: "xonce", modes: "psr", times: 17},
	"C08": {pkg: "xbarrier", modes: "sr", times: 14},
	"C09": {pkg: "xtask", modes: "sr", times: 17},
	"C10": {pkg: "xtask", modes: "p", times: 50},
	"C11": {pkg: "xerror", modes: "p", times: 50},
	"C12": {pkg: "xworker", modes: "sr", times: 10},
	"C13": {pkg: "xmapreduce", modes: "sr", times: 14},
	"C14": {pkg: "xstream", modes: "ps", times: 3},
	"C15": {pkg: "xstream", modes: "psr", times: 3},
	"C16": {pkg: "xstream", modes: "psr", times: 3},
	"C17": {pkg: "xstream", modes: "ps", times: 3},
	"C18": {pkg: "xstream", modes: "psr", times: 3},
	"C19": {pkg: "xring", modes: "psr", times: 4},
	"C20": {pkg: "xbytes", modes: "psr", times: 1},
	"C21": {pkg: "xio", modes: "psr", times: 5},
	"C22": {pkg: "xbinary", modes: "p", times: 11},
	"C23": {pkg: "xbinary", modes: "psr", times: 3},
	"C24": {pkg: "xmath", modes: "p", times: 34},
	"C25": {pkg: "xstring", modes: "p", times: 42},
	"C26": {pkg: "xstring", modes: "p", times: 27},
	"C27": {pkg: "xstring", modes: "p", times: 57},
	"C28": {pkg: "xstring", modes: "p", times: 27},
	"C29": {pkg: "xstring", modes: "p", times: 26},
	"C30": {pkg: "xstring", modes: "p", times: 34},
	"C31": {pkg: "xstring", modes: "p", times: 36},
	"C32": {pkg: "xstring", modes: "p", times: 28},
	"C33": {pkg: "xstring", modes: "p", times: 30},
	"C34": {pkg: "apart", modes: "psr", times: 3},
	"C35": {pkg: "keep", modes: "p", times: 5},
	"C36": {pkg: "release", modes: "p", times: 8},
}
