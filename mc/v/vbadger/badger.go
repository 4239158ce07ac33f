// Package vbadger wraps storage operations of instrumented code: every read and write
// transaction is a scheduling point, and writes can be made to fail or be counted.
package vbadger

import (
	"github.com/dgraph-io/badger/v4"

	"vmc/sched"
)

// Hook, when set, is asked outside executions too.
var Hook func(kind string) error

func ask(kind string) error {
	if e := sched.Active(); e != nil {
		if e.Killing() {
			return nil
		}
		if e.OnStore != nil {
			if err := e.OnStore(kind); err != nil {
				return err
			}
		}
		return nil
	}
	if Hook != nil {
		return Hook(kind)
	}
	return nil
}

func point(kind string) {
	if e := sched.Active(); e != nil && !e.Killing() && !e.NoStorePoints {
		e.Point("db." + kind)
	}
}

// Update wraps (*badger.DB).Update.
func Update(f func(func(*badger.Txn) error) error, fn func(*badger.Txn) error) error {
	point("update")
	if err := ask("update"); err != nil {
		return err
	}
	return committed(f(func(txn *badger.Txn) error {
		if err := fn(txn); err != nil {
			return err
		}
		point("commit")
		return ask("commit")
	}))
}

// committed reports a transaction that reached the storage.
func committed(err error) error {
	if err == nil {
		_ = ask("committed")
	}
	return err
}

// View wraps (*badger.DB).View.
func View(f func(func(*badger.Txn) error) error, fn func(*badger.Txn) error) error {
	point("view")
	if err := ask("view"); err != nil {
		return err
	}
	return f(fn)
}

// Commit wraps (*badger.Txn).Commit.
func Commit(f func() error) error {
	point("commit")
	if err := ask("commit"); err != nil {
		return err
	}
	return committed(f())
}

// Set, SetEntry and Delete wrap the writes of a transaction.
func Set(f func(k, v []byte) error, k, v []byte) error {
	if err := ask("set"); err != nil {
		return err
	}
	return f(k, v)
}
func SetEntry(f func(e *badger.Entry) error, e *badger.Entry) error {
	if err := ask("set"); err != nil {
		return err
	}
	return f(e)
}
func Delete(f func(k []byte) error, k []byte) error {
	if err := ask("delete"); err != nil {
		return err
	}
	return f(k)
}

// Get wraps a read of a transaction.
func Get(f func(k []byte) (*badger.Item, error), k []byte) (*badger.Item, error) {
	if err := ask("get"); err != nil {
		return nil, err
	}
	return f(k)
}

// Value and ValueCopy wrap the reads of an item's value (which may lie in a file of its own).
func Value(f func(func([]byte) error) error, fn func([]byte) error) error {
	if err := ask("value"); err != nil {
		return err
	}
	return f(fn)
}
func ValueCopy(f func([]byte) ([]byte, error), dst []byte) ([]byte, error) {
	if err := ask("value"); err != nil {
		return nil, err
	}
	return f(dst)
}

// DropPrefix wraps (*badger.DB).DropPrefix.
func DropPrefix(f func(p ...[]byte) error, p ...[]byte) error {
	point("update")
	if err := ask("update"); err != nil {
		return err
	}
	point("commit")
	if err := ask("commit"); err != nil {
		return err
	}
	return committed(f(p...))
}
