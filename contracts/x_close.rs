} // mod ex
