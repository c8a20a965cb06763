package golangNeo4jBoltDriver

// VerifRecorded returns a driver that records (or, without a connection
// string, replays) the session of its connection.
func VerifRecorded(name, connStr string) Driver {
	d := NewDriver()
	d.(*boltDriver).recorder = newRecorder(name, connStr)
	return d
}
