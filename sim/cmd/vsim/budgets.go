package main

const ran = "One run is one seeded simulation of whole endpoints with drawn configuration, network behaviour, schedule, operations and faults. "

var budgets = map[string]budget{
	"C01": {Runs: 12000, Secs: 60, Rule: "One run is one seeded connection (or several) with drawn configuration, segmentation, schedule and operations. Non-trivial: both ends completed and application bytes crossed in at least one direction."},
	"C06": {Runs: 12000, Secs: 60, Rule: "One run is one seeded handshake between two drawn configurations. Non-trivial: the configurations are compatible and both ends completed, or they are incompatible and at least one end reported it."},
	"C17": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: mint and the independent implementation both completed."},
	"C02": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: the attacker changed the traffic at least once, or (honest scenarios) both ends completed."},
	"C05": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: more than a few encryptions were observed and, in fault scenarios, a transport write failed."},
	"C13": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: both ends completed and at least one key update was sent."},
	"C15": {Runs: 16000, Secs: 60, Rule: ran + "Non-trivial: every connection ran and the configurations were compared."},
	"C16": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: an end completed, or the attacker changed the traffic at least once."},
	"C07": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: both ends completed and the network lost, repeated or reordered at least one datagram."},
	"C08": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: both ends completed and either exchanged messages undisturbed or met at least one network fault or foreign datagram."},
	"C18": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: the fault of the run occurred."},
	"C03": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: the server deviated at least once, or the client completed."},
	"C14": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: an endpoint was used before its handshake completed or after it failed, or its peer sent an alert or premature data."},
	"C20": {Runs: 20000, Secs: 60, Rule: ran + "Non-trivial: a dial with a time limit met a peer that is not prompt."},
	"C21": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: both ends completed, or an extension handler refused."},
	"C22": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: Close was called (listener scenario: and a connection had been accepted)."},
	"C23": {Runs: 40000, Secs: 60, Rule: ran + "Non-trivial: both ends completed (broken scenarios: a supplied layer failed)."},
	"C09": {Runs: 25000, Secs: 60, Rule: ran + "Non-trivial: at least one malformed input was sent."},
	"C11": {Runs: 10000, Secs: 60, Rule: ran + "Non-trivial: a ticket was used to resume."},
	"C12": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: a cookie was demanded, or a retry was out of order."},
	"C10": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: early data was read, or it was written and had to be refused."},
	"C04": {Runs: 12000, Secs: 60, Rule: ran + "Non-trivial: the client deviated at least once, or the server completed."},
}
