//! Only here so that cargo builds dync for the enumerated programs.
