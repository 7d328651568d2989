package models

// Log output is not part of any property.

// replaces: yunion.io/x/log.Debugf
func LogDebugf(format string, a ...interface{}) {}

// replaces: yunion.io/x/log.Infof
func LogInfof(format string, a ...interface{}) {}

// replaces: yunion.io/x/log.Warningf
func LogWarningf(format string, a ...interface{}) {}

// replaces: yunion.io/x/log.Errorf
func LogErrorf(format string, a ...interface{}) {}
