//go:build verif

// Package c36: the client libraries and the services' APIs understand each other.
package c36

import "github.com/DanLavine/willow/internal/verif_harness/c33"

// CheckLimiterCalls: each call of the limiter client does what it says.
func CheckLimiterCalls() { c33.ClientLimiter() }

// CheckWillowCalls: each call of the willow client does what it says.
func CheckWillowCalls() { c33.ClientWillow() }

// CheckAck: an item is acknowledged as the item it is.
func CheckAck() { c33.ClientAck() }
